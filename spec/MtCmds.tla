------------------------------- MODULE MtCmds -------------------------------
(* The MT command set of the adapter, frozen.  Generated by vlib/gen_table.py  *)
(* from spec/mtcmds.json.  ty: 1 SREQ, 2 AREQ, 3 SRSP; req/rsp: <<name, type>>. *)
EXTENDS Naturals, Sequences

Cmds == <<
  [ss |-> 1, id |-> 0, name |-> "resetReq", ty |-> 2,
   req |-> <<<<"type", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 1, id |-> 1, name |-> "ping", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"capabilities", "UINT16">>>>],
  [ss |-> 1, id |-> 2, name |-> "version", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"transportrev", "UINT8">>, <<"product", "UINT8">>, <<"majorrel", "UINT8">>, <<"minorrel", "UINT8">>, <<"maintrel", "UINT8">>, <<"revision", "UINT32">>>>],
  [ss |-> 1, id |-> 3, name |-> "setExtAddr", ty |-> 1,
   req |-> <<<<"extaddress", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 4, name |-> "getExtAddr", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"extaddress", "IEEEADDR">>>>],
  [ss |-> 1, id |-> 5, name |-> "ramRead", ty |-> 1,
   req |-> <<<<"address", "UINT16">>, <<"len", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>],
  [ss |-> 1, id |-> 6, name |-> "ramWrite", ty |-> 1,
   req |-> <<<<"address", "UINT16">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 7, name |-> "osalNvItemInit", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"len", "UINT16">>, <<"initlen", "UINT8">>, <<"initvalue", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 8, name |-> "osalNvRead", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"offset", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>],
  [ss |-> 1, id |-> 9, name |-> "osalNvWrite", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"offset", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 10, name |-> "osalStartTimer", ty |-> 1,
   req |-> <<<<"id", "UINT8">>, <<"timeout", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 11, name |-> "osalStopTimer", ty |-> 1,
   req |-> <<<<"id", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 12, name |-> "random", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"value", "UINT16">>>>],
  [ss |-> 1, id |-> 13, name |-> "adcRead", ty |-> 1,
   req |-> <<<<"channel", "UINT8">>, <<"resolution", "UINT8">>>>,
   rsp |-> <<<<"value", "UINT16">>>>],
  [ss |-> 1, id |-> 14, name |-> "gpio", ty |-> 1,
   req |-> <<<<"operation", "UINT8">>, <<"value", "UINT8">>>>,
   rsp |-> <<<<"value", "UINT8">>>>],
  [ss |-> 1, id |-> 15, name |-> "stackTune", ty |-> 1,
   req |-> <<<<"operation", "UINT8">>, <<"value", "INT8">>>>,
   rsp |-> <<<<"value", "UINT8">>>>],
  [ss |-> 1, id |-> 16, name |-> "setTime", ty |-> 1,
   req |-> <<<<"utc", "UINT32">>, <<"hour", "UINT8">>, <<"minute", "UINT8">>, <<"second", "UINT8">>, <<"month", "UINT8">>, <<"day", "UINT8">>, <<"year", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 17, name |-> "getTime", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"utc", "UINT32">>, <<"hour", "UINT8">>, <<"minute", "UINT8">>, <<"second", "UINT8">>, <<"month", "UINT8">>, <<"day", "UINT8">>, <<"year", "UINT16">>>>],
  [ss |-> 1, id |-> 18, name |-> "osalNvDelete", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"len", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 19, name |-> "osalNvLength", ty |-> 1,
   req |-> <<<<"id", "UINT16">>>>,
   rsp |-> <<<<"length", "UINT16">>>>],
  [ss |-> 1, id |-> 20, name |-> "setTxPower", ty |-> 1,
   req |-> <<<<"level", "UINT8">>>>,
   rsp |-> <<<<"txpower", "UINT8">>>>],
  [ss |-> 1, id |-> 21, name |-> "jammerParameters", ty |-> 1,
   req |-> <<<<"jmrcntievents", "UINT16">>, <<"jmrhinoiselvl", "UINT8">>, <<"jmrdetectperiod", "UINT32">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 22, name |-> "snifferParameters", ty |-> 1,
   req |-> <<<<"param", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 23, name |-> "zdiagsInitStats", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 24, name |-> "zdiagsClearStats", ty |-> 1,
   req |-> <<<<"clearnv", "UINT8">>>>,
   rsp |-> <<<<"sysclock", "UINT32">>>>],
  [ss |-> 1, id |-> 25, name |-> "zdiagsGetStats", ty |-> 1,
   req |-> <<<<"attributeid", "UINT16">>>>,
   rsp |-> <<<<"attributevalue", "UINT32">>>>],
  [ss |-> 1, id |-> 26, name |-> "zdiagsRestoreStatsNv", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 27, name |-> "zdiagsSaveStatsToNv", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"sysclock", "UINT32">>>>],
  [ss |-> 1, id |-> 28, name |-> "osalNvReadExt", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"offset", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>],
  [ss |-> 1, id |-> 29, name |-> "osalNvWriteExt", ty |-> 1,
   req |-> <<<<"id", "UINT16">>, <<"offset", "UINT16">>, <<"len", "UINT16">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 48, name |-> "nvCreate", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>, <<"len", "UINT32">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 49, name |-> "nvDelete", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 50, name |-> "nvLength", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>>>,
   rsp |-> <<<<"len", "UINT8">>>>],
  [ss |-> 1, id |-> 51, name |-> "nvRead", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>, <<"offset", "UINT16">>, <<"len", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>],
  [ss |-> 1, id |-> 52, name |-> "nvWrite", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>, <<"offset", "UINT16">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 53, name |-> "nvUpdate", ty |-> 1,
   req |-> <<<<"sysid", "UINT8">>, <<"itemid", "UINT16">>, <<"subid", "UINT16">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 54, name |-> "nvCompact", ty |-> 1,
   req |-> <<<<"threshold", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 1, id |-> 128, name |-> "resetInd", ty |-> 2,
   req |-> <<<<"reason", "UINT8">>, <<"transportrev", "UINT8">>, <<"productid", "UINT8">>, <<"majorrel", "UINT8">>, <<"minorrel", "UINT8">>, <<"hwrev", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 1, id |-> 129, name |-> "osalTimerExpired", ty |-> 2,
   req |-> <<<<"id", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 1, id |-> 130, name |-> "jammerInd", ty |-> 2,
   req |-> <<<<"jammerind", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 1, name |-> "resetReq", ty |-> 1,
   req |-> <<<<"setdefault", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 2, name |-> "init", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 3, name |-> "startReq", ty |-> 1,
   req |-> <<<<"starttime", "UINT32">>, <<"panid", "UINT16">>, <<"logicalchannel", "UINT8">>, <<"channelpage", "UINT8">>, <<"beaconorder", "UINT8">>, <<"superframeorder", "UINT8">>, <<"pancoordinator", "UINT8">>, <<"batterylifeext", "UINT8">>, <<"coordrealignment", "UINT8">>, <<"realignkeysource", "BUFFER">>, <<"realignsecuritylevel", "UINT8">>, <<"realignkeyidmode", "UINT8">>, <<"realignkeyindex", "UINT8">>, <<"beaconkeysource", "BUFFER">>, <<"beaconsecuritylevel", "UINT8">>, <<"beaconkeyidmode", "UINT8">>, <<"beaconkeyindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 4, name |-> "syncReq", ty |-> 1,
   req |-> <<<<"logicalchannel", "UINT8">>, <<"channelpage", "UINT8">>, <<"trackbeacon", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 5, name |-> "dataReq", ty |-> 1,
   req |-> <<<<"destaddressmode", "UINT8">>, <<"destaddress", "IEEEADDR">>, <<"destpanid", "UINT16">>, <<"srcaddressmode", "UINT8">>, <<"handle", "UINT8">>, <<"txoption", "UINT8">>, <<"logicalchannel", "UINT8">>, <<"power", "UINT8">>, <<"keysource", "BUFFER">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>, <<"msdulength", "UINT8">>, <<"msdu", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 6, name |-> "associateReq", ty |-> 1,
   req |-> <<<<"logicalchannel", "UINT8">>, <<"channelpage", "UINT8">>, <<"coordaddressmode", "UINT8">>, <<"coordaddress", "IEEEADDR">>, <<"coordpanid", "UINT16">>, <<"capabilityinformation", "UINT8">>, <<"keysource", "BUFFER">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 7, name |-> "disassociateReq", ty |-> 1,
   req |-> <<<<"deviceaddressmode", "UINT8">>, <<"deviceaddress", "IEEEADDR">>, <<"devicepanid", "UINT16">>, <<"disassociatereason", "UINT8">>, <<"txindirect", "UINT8">>, <<"keysource", "BUFFER">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 8, name |-> "getReq", ty |-> 1,
   req |-> <<<<"attribute", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"data", "BUFFER16">>>>],
  [ss |-> 2, id |-> 9, name |-> "setReq", ty |-> 1,
   req |-> <<<<"attribute", "UINT8">>, <<"attributevalue", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 12, name |-> "scanReq", ty |-> 1,
   req |-> <<<<"scanchannels", "UINT32">>, <<"scantype", "UINT8">>, <<"scanduration", "UINT8">>, <<"channelpage", "UINT8">>, <<"maxresults", "UINT8">>, <<"keysource", "BUFFER">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 13, name |-> "pollReq", ty |-> 1,
   req |-> <<<<"coordaddressmode", "UINT8">>, <<"coordaddress", "IEEEADDR">>, <<"coordpanid", "UINT16">>, <<"keysource", "BUFFER">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 14, name |-> "purgeReq", ty |-> 1,
   req |-> <<<<"msduhandle", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 15, name |-> "setRxGainReq", ty |-> 1,
   req |-> <<<<"mode", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 48, name |-> "securityGetReq", ty |-> 1,
   req |-> <<<<"attribute", "UINT8">>, <<"index1", "UINT8">>, <<"index2", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 49, name |-> "securitySetReq", ty |-> 1,
   req |-> <<<<"attribute", "UINT8">>, <<"attributevalue", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 80, name |-> "associateRsp", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>, <<"assocshortaddress", "UINT16">>, <<"assocstatus", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 81, name |-> "orphanRsp", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>, <<"assocshortaddress", "UINT16">>, <<"associatedmember", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 2, id |-> 128, name |-> "syncLossInd", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"panid", "UINT16">>, <<"logicalchannel", "UINT8">>, <<"channelpage", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 129, name |-> "associateInd", ty |-> 2,
   req |-> <<<<"deviceextendedaddress", "IEEEADDR">>, <<"capabilities", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 130, name |-> "associateCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"deviceshortaddress", "UINT16">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 131, name |-> "beaconNotifyInd", ty |-> 2,
   req |-> <<<<"bsn", "UINT8">>, <<"timestamp", "UINT32">>, <<"coordinatoraddressmode", "UINT8">>, <<"coordinatorextendedaddress", "IEEEADDR">>, <<"panid", "UINT16">>, <<"superframespec", "UINT16">>, <<"logicalchannel", "UINT8">>, <<"gtspermit", "UINT8">>, <<"linkquality", "UINT8">>, <<"securityfailure", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>, <<"pendingaddrspec", "UINT8">>, <<"addresslist", "BUFFER32">>, <<"sdulength", "UINT8">>, <<"nsdu", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 132, name |-> "dataCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"handle", "UINT8">>, <<"timestamp", "UINT32">>, <<"timestamp2", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 133, name |-> "dataInd", ty |-> 2,
   req |-> <<<<"srcaddrmode", "ADDRMODE">>, <<"srcaddr", "IEEEADDR">>, <<"dstaddrmode", "ADDRMODE">>, <<"dstaddr", "IEEEADDR">>, <<"timestamp", "UINT32">>, <<"timestamp2", "UINT16">>, <<"srcpanid", "UINT16">>, <<"dstpanid", "UINT16">>, <<"linkquality", "UINT8">>, <<"correlation", "UINT8">>, <<"rssi", "UINT8">>, <<"dsn", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>, <<"length", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 134, name |-> "disassociateInd", ty |-> 2,
   req |-> <<<<"extendedaddress", "IEEEADDR">>, <<"disassociatereason", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 135, name |-> "disassociateCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"deviceaddrmode", "ADDRMODE">>, <<"deviceaddr", "IEEEADDR">>, <<"devicepanid", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 138, name |-> "orphanInd", ty |-> 2,
   req |-> <<<<"extendedaddr", "IEEEADDR">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 139, name |-> "pollCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 140, name |-> "scanCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"ed", "UINT8">>, <<"scantype", "UINT8">>, <<"channelpage", "UINT8">>, <<"unscannedchannellist", "UINT32">>, <<"resultlistcount", "UINT8">>, <<"resultlistmaxlength", "UINT8">>, <<"resultlist", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 141, name |-> "commStatusInd", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"srcaddrmode", "ADDRMODE">>, <<"srcaddr", "IEEEADDR">>, <<"dstaddrmode", "ADDRMODE">>, <<"dstaddr", "IEEEADDR">>, <<"devicepanid", "UINT16">>, <<"reason", "UINT8">>, <<"keysource", "BUFFER8">>, <<"securitylevel", "UINT8">>, <<"keyidmode", "UINT8">>, <<"keyindex", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 142, name |-> "startCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 143, name |-> "rxEnableCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 2, id |-> 144, name |-> "purgeCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"handle", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 4, id |-> 0, name |-> "register", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>, <<"appprofid", "UINT16">>, <<"appdeviceid", "UINT16">>, <<"appdevver", "UINT8">>, <<"latencyreq", "UINT8">>, <<"appnuminclusters", "UINT8">>, <<"appinclusterlist", "LIST_UINT16">>, <<"appnumoutclusters", "UINT8">>, <<"appoutclusterlist", "LIST_UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 1, name |-> "dataRequest", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"destendpoint", "UINT8">>, <<"srcendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"transid", "UINT8">>, <<"options", "UINT8">>, <<"radius", "UINT8">>, <<"len", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 2, name |-> "dataRequestExt", ty |-> 1,
   req |-> <<<<"dstaddrmode", "ADDRMODE">>, <<"dstaddr", "IEEEADDR">>, <<"destendpoint", "UINT8">>, <<"dstpanid", "UINT16">>, <<"srcendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"transid", "UINT8">>, <<"options", "UINT8">>, <<"radius", "UINT8">>, <<"len", "UINT16">>, <<"data", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 3, name |-> "dataRequestSrcRtg", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"destendpoint", "UINT8">>, <<"srcendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"transid", "UINT8">>, <<"options", "UINT8">>, <<"radius", "UINT8">>, <<"relaycount", "UINT8">>, <<"relaylist", "LIST_UINT16">>, <<"len", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 4, name |-> "delete", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 16, name |-> "interPanCtl", ty |-> 1,
   req |-> <<<<"cmd", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 17, name |-> "dataStore", ty |-> 1,
   req |-> <<<<"index", "UINT16">>, <<"length", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 18, name |-> "dataRetrieve", ty |-> 1,
   req |-> <<<<"timestamp", "UINT32">>, <<"index", "UINT16">>, <<"length", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"length", "UINT8">>, <<"data", "BUFFER">>>>],
  [ss |-> 4, id |-> 19, name |-> "apsfConfigSet", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>, <<"framedelay", "UINT8">>, <<"windowsize", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 4, id |-> 20, name |-> "apsfConfigGet", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>>>,
   rsp |-> <<<<"framedelay", "UINT8">>, <<"windowsize", "UINT8">>, <<"nomean", "UINT8">>>>],
  [ss |-> 4, id |-> 128, name |-> "dataConfirm", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"endpoint", "UINT8">>, <<"transid", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 4, id |-> 129, name |-> "incomingMsg", ty |-> 2,
   req |-> <<<<"groupid", "UINT16">>, <<"clusterid", "UINT16">>, <<"srcaddr", "UINT16">>, <<"srcendpoint", "UINT8">>, <<"dstendpoint", "UINT8">>, <<"wasbroadcast", "UINT8">>, <<"linkquality", "UINT8">>, <<"securityuse", "UINT8">>, <<"timestamp", "UINT32">>, <<"transseqnumber", "UINT8">>, <<"len", "UINT8">>, <<"data", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 4, id |-> 130, name |-> "incomingMsgExt", ty |-> 2,
   req |-> <<<<"groupid", "UINT16">>, <<"clusterid", "UINT16">>, <<"srcaddrmode", "ADDRMODE">>, <<"srcaddr", "IEEEADDR">>, <<"srcendpoint", "UINT8">>, <<"srcpanid", "UINT16">>, <<"dstendpoint", "UINT8">>, <<"wasbroadcast", "UINT8">>, <<"linkquality", "UINT8">>, <<"securityuse", "UINT8">>, <<"timestamp", "UINT32">>, <<"transseqnumber", "UINT8">>, <<"len", "UINT16">>, <<"data", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 4, id |-> 131, name |-> "reflectError", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"endpoint", "UINT8">>, <<"transid", "UINT8">>, <<"dstaddrmode", "ADDRMODE">>, <<"dstaddr", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 0, name |-> "nwkAddrReq", ty |-> 1,
   req |-> <<<<"ieeeaddr", "IEEEADDR">>, <<"reqtype", "UINT8">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 1, name |-> "ieeeAddrReq", ty |-> 1,
   req |-> <<<<"shortaddr", "UINT16">>, <<"reqtype", "UINT8">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 2, name |-> "nodeDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 3, name |-> "powerDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 4, name |-> "simpleDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>, <<"endpoint", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 5, name |-> "activeEpReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 6, name |-> "matchDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>, <<"profileid", "UINT16">>, <<"numinclusters", "UINT8">>, <<"inclusterlist", "LIST_UINT16">>, <<"numoutclusters", "UINT8">>, <<"outclusterlist", "LIST_UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 7, name |-> "complexDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 8, name |-> "userDescReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 10, name |-> "endDeviceAnnce", ty |-> 1,
   req |-> <<<<"nwkaddr", "UINT16">>, <<"ieeeaddr", "IEEEADDR">>, <<"capability", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 11, name |-> "userDescSet", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"nwkaddrofinterest", "UINT16">>, <<"descriptor_len", "UINT8">>, <<"userdescriptor", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 12, name |-> "serverDiscReq", ty |-> 1,
   req |-> <<<<"servermask", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 32, name |-> "endDeviceBindReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"localcoord", "UINT16">>, <<"localieee", "IEEEADDR">>, <<"endpoint", "UINT8">>, <<"profileid", "UINT16">>, <<"numinclusters", "UINT8">>, <<"inclusterlist", "LIST_UINT16">>, <<"numoutclusters", "UINT8">>, <<"outclusterlist", "LIST_UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 33, name |-> "bindReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"srcaddr", "IEEEADDR">>, <<"srcendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"dstaddrmode", "ADDRMODE">>, <<"dstaddress", "IEEEADDR">>, <<"dstendpoint", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 34, name |-> "unbindReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"srcaddr", "IEEEADDR">>, <<"srcendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"dstaddrmode", "ADDRMODE">>, <<"dstaddress", "IEEEADDR">>, <<"dstendpoint", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 35, name |-> "setLinkKey", ty |-> 1,
   req |-> <<<<"shortaddr", "UINT16">>, <<"ieeeaddr", "IEEEADDR">>, <<"linkkey", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 36, name |-> "removeLinkKey", ty |-> 1,
   req |-> <<<<"ieeeaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 37, name |-> "getLinkKey", ty |-> 1,
   req |-> <<<<"ieeeaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"ieeeaddr", "IEEEADDR">>, <<"linkkeydata", "BUFFER16">>>>],
  [ss |-> 5, id |-> 38, name |-> "nwkDiscoveryReq", ty |-> 1,
   req |-> <<<<"scanchannels", "UINT32">>, <<"scanduration", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 39, name |-> "joinReq", ty |-> 1,
   req |-> <<<<"logicalchannel", "UINT8">>, <<"panid", "UINT16">>, <<"extendedpanid", "IEEEADDR">>, <<"chosenparent", "UINT16">>, <<"parentdepth", "UINT8">>, <<"stackprofile", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 48, name |-> "mgmtNwkDiscReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"scanchannels", "UINT32">>, <<"scanduration", "UINT8">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 49, name |-> "mgmtLqiReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 50, name |-> "mgmtRtgReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 51, name |-> "mgmtBindReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"startindex", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 52, name |-> "mgmtLeaveReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"deviceaddress", "IEEEADDR">>, <<"removechildrenRejoin", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 53, name |-> "mgmtDirectJoinReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"deviceaddr", "IEEEADDR">>, <<"capinfo", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 54, name |-> "mgmtPermitJoinReq", ty |-> 1,
   req |-> <<<<"addrmode", "ADDRMODE">>, <<"dstaddr", "UINT16">>, <<"duration", "UINT8">>, <<"tcsignificance", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 55, name |-> "mgmtNwkUpdateReq", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"dstaddrmode", "ADDRMODE">>, <<"channelmask", "UINT32">>, <<"scanduration", "UINT8">>, <<"scancount", "UINT8">>, <<"nwkmanageraddr", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 62, name |-> "msgCbRegister", ty |-> 1,
   req |-> <<<<"clusterid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 63, name |-> "msgCbRemove", ty |-> 1,
   req |-> <<<<"clusterid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 64, name |-> "startupFromApp", ty |-> 1,
   req |-> <<<<"startdelay", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 65, name |-> "autoFindDestination", ty |-> 2,
   req |-> <<<<"endpoint", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 128, name |-> "nwkAddrRsp", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"ieeeaddr", "IEEEADDR">>, <<"nwkaddr", "UINT16">>, <<"startindex", "UINT8">>, <<"numassocdev", "UINT8">>, <<"assocdevlist", "LIST_ASSOC_DEV">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 129, name |-> "ieeeAddrRsp", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"ieeeaddr", "IEEEADDR">>, <<"nwkaddr", "UINT16">>, <<"startindex", "UINT8">>, <<"numassocdev", "UINT8">>, <<"assocdevlist", "LIST_ASSOC_DEV">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 130, name |-> "nodeDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"logicaltype_cmplxdescavai_userdescavai", "UINT8">>, <<"apsflags_freqband", "UINT8">>, <<"maccapflags", "UINT8">>, <<"manufacturercode", "UINT16">>, <<"maxbuffersize", "UINT8">>, <<"maxintransfersize", "UINT16">>, <<"servermask", "UINT16">>, <<"maxouttransfersize", "UINT16">>, <<"descriptorcap", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 131, name |-> "powerDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"currentpowermode_avaipowersrc", "UINT8">>, <<"currentpowersrc_currentpowersrclevel", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 132, name |-> "simpleDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"len", "UINT8">>, <<"endpoint", "UINT8">>, <<"profileid", "UINT16">>, <<"deviceid", "UINT16">>, <<"deviceversion", "UINT8">>, <<"numinclusters", "UINT8">>, <<"inclusterlist", "LIST_UINT16">>, <<"numoutclusters", "UINT8">>, <<"outclusterlist", "LIST_UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 133, name |-> "activeEpRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"activeepcount", "UINT8">>, <<"activeeplist", "LIST_UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 134, name |-> "matchDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"matchlength", "UINT8">>, <<"matchlist", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 135, name |-> "complexDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"complexlength", "UINT8">>, <<"complexdesclist", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 136, name |-> "userDescRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>, <<"userlength", "UINT8">>, <<"userdescriptor", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 137, name |-> "userDescConf", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"nwkaddr", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 138, name |-> "serverDiscRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"servermask", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 160, name |-> "endDeviceBindRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 161, name |-> "bindRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 162, name |-> "unbindRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 176, name |-> "mgmtNwkDiscRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"networkcount", "UINT8">>, <<"startindex", "UINT8">>, <<"networklistcount", "UINT8">>, <<"networklist", "LIST_NETWORK">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 177, name |-> "mgmtLqiRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"neighbortableentries", "UINT8">>, <<"startindex", "UINT8">>, <<"neighborlqilistcount", "UINT8">>, <<"neighborlqilist", "LIST_NEIGHBOR_LQI">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 178, name |-> "mgmtRtgRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"routingtableentries", "UINT8">>, <<"startindex", "UINT8">>, <<"routingtablelistcount", "UINT8">>, <<"routingtablelist", "LIST_ROUTING_TABLE">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 179, name |-> "mgmtBindRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"bindingtableentries", "UINT8">>, <<"startindex", "UINT8">>, <<"bindingtablelistcount", "UINT8">>, <<"bindingtablelist", "LIST_BIND_TABLE">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 180, name |-> "mgmtLeaveRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 181, name |-> "mgmtDirectJoinRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 184, name |-> "mgmtNwkUpdateNotify", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>, <<"scanchannels", "UINT32">>, <<"totaltransmissions", "UINT16">>, <<"transmissionfailures", "UINT16">>, <<"channelcount", "UINT8">>, <<"energyvalues", "LIST_UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 182, name |-> "mgmtPermitJoinRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 192, name |-> "stateChangeInd", ty |-> 2,
   req |-> <<<<"state", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 193, name |-> "endDeviceAnnceInd", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"nwkaddr", "UINT16">>, <<"ieeeaddr", "IEEEADDR">>, <<"capabilities", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 194, name |-> "matchDescRspSent", ty |-> 2,
   req |-> <<<<"nwkaddr", "UINT16">>, <<"numinclusters", "UINT8">>, <<"inclusterlist", "LIST_UINT16">>, <<"numoutclusters", "UINT8">>, <<"outclusterlist", "LIST_UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 195, name |-> "statusErrorRsp", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 196, name |-> "srcRtgInd", ty |-> 2,
   req |-> <<<<"dstaddr", "UINT16">>, <<"relaycount", "UINT8">>, <<"relaylist", "LIST_UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 197, name |-> "beacon_notify_ind", ty |-> 2,
   req |-> <<<<"beaconcount", "UINT8">>, <<"beaconlist", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 198, name |-> "joinCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>, <<"deviceaddress", "UINT16">>, <<"parentaddress", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 199, name |-> "nwkDiscoveryCnf", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 200, name |-> "concentratorIndCb", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"extaddr", "IEEEADDR">>, <<"pktCost", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 201, name |-> "leaveInd", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"extaddr", "IEEEADDR">>, <<"request", "UINT8">>, <<"removechildren", "UINT8">>, <<"rejoin", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 204, name |-> "setRejoinParametersReq", ty |-> 1,
   req |-> <<<<"backoffduration", "UINT32">>, <<"scanduration", "UINT32">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 255, name |-> "msgCbIncoming", ty |-> 2,
   req |-> <<<<"srcaddr", "UINT16">>, <<"wasbroadcast", "UINT8">>, <<"clusterid", "UINT16">>, <<"securityuse", "UINT8">>, <<"seqnum", "UINT8">>, <<"macdstaddr", "UINT16">>, <<"msgdata", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 13, name |-> "endDeviceTimeoutReq", ty |-> 1,
   req |-> <<<<"parentaddr", "UINT16">>, <<"reqrimeout", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 40, name |-> "sendData", ty |-> 1,
   req |-> <<<<"shortaddr", "UINT16">>, <<"transseq", "UINT8">>, <<"cmd", "UINT16">>, <<"len", "UINT8">>, <<"buf", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 41, name |-> "nwkAddrOfInterestReq", ty |-> 1,
   req |-> <<<<"shortaddr", "UINT16">>, <<"nwkaddr", "UINT16">>, <<"cmd", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 66, name |-> "secAddLinkKey", ty |-> 1,
   req |-> <<<<"shortaddr", "UINT16">>, <<"extaddr", "IEEEADDR">>, <<"linkkey", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 67, name |-> "secEntryLookupExt", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"ami", "UINT16">>, <<"keynvid", "UINT16">>, <<"authenticateoption", "UINT8">>>>],
  [ss |-> 5, id |-> 68, name |-> "secDeviceRemove", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 69, name |-> "extRouteDisc", ty |-> 1,
   req |-> <<<<"dstAddr", "UINT16">>, <<"options", "UINT8">>, <<"radius", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 70, name |-> "extRouteCheck", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"rtstatus", "UINT8">>, <<"options", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 71, name |-> "extRemoveGroup", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>, <<"groupid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 72, name |-> "extRemoveAllGroup", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 73, name |-> "extFindAllGroupsEndpoint", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>>>,
   rsp |-> <<<<"groups", "UINT8">>, <<"grouplist", "LIST_UINT16">>>>],
  [ss |-> 5, id |-> 74, name |-> "extFindGroup", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>, <<"groupid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"groupid", "UINT16">>, <<"namelen", "UINT8">>, <<"groupname", "BUFFER">>>>],
  [ss |-> 5, id |-> 75, name |-> "extAddGroup", ty |-> 1,
   req |-> <<<<"endpoint", "UINT8">>, <<"groupid", "UINT16">>, <<"namelen", "UINT8">>, <<"groupname", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 76, name |-> "extCountAllGroups", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 77, name |-> "extRxIdle", ty |-> 1,
   req |-> <<<<"setflag", "UINT8">>, <<"setvalue", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 78, name |-> "extUpdateNwkKey", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"keyseqnum", "UINT8">>, <<"key", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 79, name |-> "extSwitchNwkKey", ty |-> 1,
   req |-> <<<<"dstaddr", "UINT16">>, <<"keyseqnum", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 80, name |-> "extNwkInfo", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"shortaddr", "UINT16">>, <<"devstate", "UINT8">>, <<"panid", "UINT16">>, <<"parentaddr", "UINT16">>, <<"extendedpanid", "IEEEADDR">>, <<"parentextaddr", "IEEEADDR">>, <<"channel", "UINT8">>>>],
  [ss |-> 5, id |-> 81, name |-> "extSecApsRemoveReq", ty |-> 1,
   req |-> <<<<"parentaddr", "UINT16">>, <<"nwkaddr", "UINT16">>, <<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 82, name |-> "forceConcentratorChange", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 83, name |-> "extSetParams", ty |-> 1,
   req |-> <<<<"usemulticast", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 5, id |-> 202, name |-> "tcDeviceInd", ty |-> 2,
   req |-> <<<<"nwkaddr", "UINT16">>, <<"extaddr", "IEEEADDR">>, <<"parentaddr", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 5, id |-> 203, name |-> "permitJoinInd", ty |-> 2,
   req |-> <<<<"duration", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 9, name |-> "systemReset", ty |-> 2,
   req |-> <<>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 0, name |-> "startRequest", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 1, name |-> "bindDevice", ty |-> 1,
   req |-> <<<<"action", "UINT8">>, <<"commandid", "UINT16">>, <<"destination", "IEEEADDR">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 2, name |-> "allowBind", ty |-> 1,
   req |-> <<<<"timeout", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 3, name |-> "sendDataRequest", ty |-> 1,
   req |-> <<<<"destination", "UINT16">>, <<"commandid", "UINT16">>, <<"handle", "UINT8">>, <<"txoptions", "UINT8">>, <<"radius", "UINT8">>, <<"payloadlen", "UINT8">>, <<"payloadvalue", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 4, name |-> "readConfiguration", ty |-> 1,
   req |-> <<<<"configid", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"configid", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>],
  [ss |-> 6, id |-> 5, name |-> "writeConfiguration", ty |-> 1,
   req |-> <<<<"configid", "UINT8">>, <<"len", "UINT8">>, <<"value", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 6, id |-> 6, name |-> "getDeviceInfo", ty |-> 1,
   req |-> <<<<"param", "UINT8">>>>,
   rsp |-> <<<<"param", "UINT8">>, <<"value", "BUFFER8">>>>],
  [ss |-> 6, id |-> 7, name |-> "findDeviceRequest", ty |-> 1,
   req |-> <<<<"searchKey", "IEEEADDR">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 8, name |-> "permitJoiningRequest", ty |-> 1,
   req |-> <<<<"destination", "UINT16">>, <<"timeout", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 6, id |-> 128, name |-> "startConfirm", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 129, name |-> "bindConfirm", ty |-> 2,
   req |-> <<<<"commandid", "UINT16">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 130, name |-> "allowBindConfirm", ty |-> 2,
   req |-> <<<<"source", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 131, name |-> "sendDataConfirm", ty |-> 2,
   req |-> <<<<"handle", "UINT8">>, <<"status", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 133, name |-> "findDeviceConfirm", ty |-> 2,
   req |-> <<<<"searchtype", "UINT8">>, <<"searchkey", "UINT16">>, <<"result", "IEEEADDR">>>>,
   rsp |-> <<>>],
  [ss |-> 6, id |-> 135, name |-> "receiveDataIndication", ty |-> 2,
   req |-> <<<<"source", "UINT16">>, <<"command", "UINT16">>, <<"len", "UINT16">>, <<"data", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 7, id |-> 0, name |-> "getDeviceInfo", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>, <<"ieeeaddr", "IEEEADDR">>, <<"shortaddr", "UINT16">>, <<"devicetype", "UINT8">>, <<"devicestate", "UINT8">>, <<"numassocdevices", "UINT8">>, <<"assocdeviceslist", "LIST_UINT16">>>>],
  [ss |-> 7, id |-> 1, name |-> "getNvInfo", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>, <<"ieeeaddr", "IEEEADDR">>, <<"scanchannels", "UINT32">>, <<"panid", "UINT16">>, <<"securitylevel", "UINT8">>, <<"preconfigkey", "BUFFER16">>>>],
  [ss |-> 7, id |-> 2, name |-> "setPanid", ty |-> 1,
   req |-> <<<<"panid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 3, name |-> "setChannels", ty |-> 1,
   req |-> <<<<"channels", "UINT32">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 4, name |-> "setSeclevel", ty |-> 1,
   req |-> <<<<"securitylevel", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 5, name |-> "setPrecfgkey", ty |-> 1,
   req |-> <<<<"preconfigkey", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 6, name |-> "callbackSubCmd", ty |-> 1,
   req |-> <<<<"subsystemid", "UINT16">>, <<"action", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 7, name |-> "keyEvent", ty |-> 1,
   req |-> <<<<"keys", "UINT8">>, <<"shift", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 9, name |-> "timeAlive", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"seconds", "UINT32">>>>],
  [ss |-> 7, id |-> 10, name |-> "ledControl", ty |-> 1,
   req |-> <<<<"ledid", "UINT8">>, <<"mode", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 16, name |-> "testLoopback", ty |-> 1,
   req |-> <<<<"data", "BUFFER">>>>,
   rsp |-> <<<<"data", "BUFFER">>>>],
  [ss |-> 7, id |-> 17, name |-> "dataReq", ty |-> 1,
   req |-> <<<<"securityuse", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 32, name |-> "srcMatchEnable", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 33, name |-> "srcMatchAddEntry", ty |-> 1,
   req |-> <<<<"addressmode", "UINT8">>, <<"address", "IEEEADDR">>, <<"panid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 34, name |-> "srcMatchDelEntry", ty |-> 1,
   req |-> <<<<"addressmode", "UINT8">>, <<"address", "IEEEADDR">>, <<"panid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 35, name |-> "srcMatchCheckSrcAddr", ty |-> 1,
   req |-> <<<<"addressmode", "UINT8">>, <<"address", "IEEEADDR">>, <<"panid", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 36, name |-> "srcMatchAckAllPending", ty |-> 1,
   req |-> <<<<"option", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 37, name |-> "srcMatchCheckAllPending", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"status", "UINT8">>, <<"value", "UINT8">>>>],
  [ss |-> 7, id |-> 64, name |-> "addrmgrExtAddrLookup", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"nwkaddr", "UINT16">>>>],
  [ss |-> 7, id |-> 65, name |-> "addrmgrNwkAddrLookup", ty |-> 1,
   req |-> <<<<"nwkaddr", "UINT16">>>>,
   rsp |-> <<<<"extaddr", "IEEEADDR">>>>],
  [ss |-> 7, id |-> 68, name |-> "apsmeLinkKeyDataGet", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"seckey", "BUFFER16">>, <<"txfrmcntr", "UINT32">>, <<"rxfrmcntr", "UINT32">>>>],
  [ss |-> 7, id |-> 69, name |-> "apsmeLinkKeyNvIdGet", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"linkkeynvid", "UINT16">>>>],
  [ss |-> 7, id |-> 72, name |-> "assocCount", ty |-> 1,
   req |-> <<<<"startrelation", "UINT8">>, <<"endrelation", "UINT8">>>>,
   rsp |-> <<<<"count", "UINT16">>>>],
  [ss |-> 7, id |-> 73, name |-> "assocFindDevice", ty |-> 1,
   req |-> <<<<"number", "UINT8">>>>,
   rsp |-> <<<<"device", "BUFFER18">>>>],
  [ss |-> 7, id |-> 74, name |-> "assocGetWithAddress", ty |-> 1,
   req |-> <<<<"extaddr", "IEEEADDR">>, <<"nwkaddr", "UINT16">>>>,
   rsp |-> <<<<"device", "BUFFER18">>>>],
  [ss |-> 7, id |-> 75, name |-> "apsmeRequestKeyCmd", ty |-> 1,
   req |-> <<<<"partneraddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 128, name |-> "zclKeyEstInitEst", ty |-> 1,
   req |-> <<<<"taskid", "UINT8">>, <<"seqnum", "UINT8">>, <<"endpoint", "UINT8">>, <<"addrmode", "ADDRMODE">>, <<"extaddr", "IEEEADDR">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 7, id |-> 129, name |-> "zclKeyEstSign", ty |-> 1,
   req |-> <<<<"inputlen", "UINT8">>, <<"input", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>, <<"key", "BUFFER42">>>>],
  [ss |-> 7, id |-> 224, name |-> "syncReq", ty |-> 2,
   req |-> <<>>,
   rsp |-> <<>>],
  [ss |-> 7, id |-> 225, name |-> "zclKeyEstablishInd", ty |-> 2,
   req |-> <<<<"taskid", "UINT8">>, <<"event", "UINT8">>, <<"status", "UINT8">>, <<"waittime", "UINT8">>, <<"suite", "UINT16">>>>,
   rsp |-> <<>>],
  [ss |-> 7, id |-> 20, name |-> "gpioSetDirection", ty |-> 1,
   req |-> <<<<"port", "UINT8">>, <<"bit", "UINT8">>, <<"direction", "UINT8">>>>,
   rsp |-> <<<<"oldp0dir", "UINT8">>, <<"oldp1dir", "UINT8">>, <<"oldp2dir", "UINT8">>, <<"p0dir", "UINT8">>, <<"p1dir", "UINT8">>, <<"p2dir", "UINT8">>>>],
  [ss |-> 7, id |-> 21, name |-> "gpioRead", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"p0", "UINT8">>, <<"p1", "UINT8">>, <<"p2", "UINT8">>, <<"p0dir", "UINT8">>, <<"p1dir", "UINT8">>, <<"p2dir", "UINT8">>>>],
  [ss |-> 7, id |-> 22, name |-> "gpioWrite", ty |-> 1,
   req |-> <<<<"port", "UINT8">>, <<"bit", "UINT8">>, <<"value", "UINT8">>>>,
   rsp |-> <<<<"oldp0", "UINT8">>, <<"oldp1", "UINT8">>, <<"oldp2", "UINT8">>, <<"p0", "UINT8">>, <<"p1", "UINT8">>, <<"p2", "UINT8">>, <<"p0dir", "UINT8">>, <<"p1dir", "UINT8">>, <<"p2dir", "UINT8">>>>],
  [ss |-> 7, id |-> 76, name |-> "srngGen", ty |-> 1,
   req |-> <<>>,
   rsp |-> <<<<"outrng", "BUFFER100">>>>],
  [ss |-> 7, id |-> 77, name |-> "bindAddEntry", ty |-> 1,
   req |-> <<<<"addrmode", "ADDRMODE">>, <<"dstaddr", "IEEEADDR">>, <<"dstendpoint", "UINT8">>, <<"numclusterids", "UINT8">>, <<"clusterids", "LIST_UINT16">>>>,
   rsp |-> <<<<"srcep", "UINT8">>, <<"dstgroupmode", "UINT8">>, <<"dstidx", "UINT16">>, <<"dstep", "UINT8">>, <<"numclusterids", "UINT8">>, <<"clusterids", "BUFFER8">>>>],
  [ss |-> 8, id |-> 0, name |-> "setThreshold", ty |-> 1,
   req |-> <<<<"componentid", "UINT8">>, <<"threshold", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 8, id |-> 128, name |-> "msg", ty |-> 2,
   req |-> <<<<"length", "UINT8">>, <<"string", "BUFFER">>>>,
   rsp |-> <<>>],
  [ss |-> 9, id |-> 0, name |-> "msg", ty |-> 1,
   req |-> <<<<"appendpoint", "UINT8">>, <<"destaddress", "UINT16">>, <<"destendpoint", "UINT8">>, <<"clusterid", "UINT16">>, <<"msglen", "UINT8">>, <<"message", "BUFFER">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 9, id |-> 1, name |-> "userTest", ty |-> 1,
   req |-> <<<<"srcep", "UINT8">>, <<"commandid", "UINT16">>, <<"param1", "UINT16">>, <<"param2", "UINT16">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 9, id |-> 129, name |-> "zllTlInd", ty |-> 2,
   req |-> <<<<"nwkaddr", "UINT16">>, <<"endpoint", "UINT8">>, <<"profileid", "UINT16">>, <<"deviceid", "UINT16">>, <<"version", "UINT8">>>>,
   rsp |-> <<>>],
  [ss |-> 15, id |-> 5, name |-> "bdbStartCommissioning", ty |-> 1,
   req |-> <<<<"mode", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 15, id |-> 8, name |-> "bdbSetChannel", ty |-> 1,
   req |-> <<<<"isPrimary", "UINT8">>, <<"channel", "UINT32">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 15, id |-> 128, name |-> "bdbComissioningNotifcation", ty |-> 2,
   req |-> <<<<"status", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>],
  [ss |-> 21, id |-> 3, name |-> "secReq", ty |-> 1,
   req |-> <<<<"applicationID", "UINT8">>, <<"srcID", "UINT32">>, <<"gdpIeeeAddr", "IEEEADDR">>, <<"endpoint", "UINT8">>, <<"gpdfSecurityLevel", "UINT8">>, <<"gpdfSecurityFrameCounter", "UINT8">>, <<"dgpStubHandle", "UINT8">>>>,
   rsp |-> <<<<"status", "UINT8">>>>]
>>
=============================================================================
