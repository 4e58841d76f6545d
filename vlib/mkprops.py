import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
U='zigpy_cc/uart.py';A='zigpy_cc/api.py';Z='zigpy_cc/zpi_object.py';B='zigpy_cc/buffalo.py';D='zigpy_cc/definition.py'
APP='zigpy_cc/zigbee/application.py';S='zigpy_cc/zigbee/start_znp.py';N='zigpy_cc/zigbee/nv_items.py';T='zigpy_cc/types.py'
p('C01','Serial framing: exact frames whatever the chunking or noise',
 'For every byte stream from the adapter and every way it is split into reads, the driver extracts exactly the well-formed frames (start byte, length, two command bytes, payload, correct checksum) that a byte-by-byte left-to-right scan finds, each one once, in order and unaltered. A frame is acted on as soon as its last byte has arrived (also if it has no payload), and a frame with a wrong checksum is never delivered. Bytes between frames that are not a start byte are skipped without disturbing the frames after them.',
 ['inputs','schedules'],'all byte streams (noise, truncation, corrupted checksums, payload lengths 0..250, start bytes inside payloads) and all chunk boundaries',
 'tests feed five fixed byte strings in at most two chunks; none has noise before a frame, a zero length payload, several frames in a chunk or a start byte inside a frame',
 [U],[('incremental parser','%s Parser.write'%U),('checksum','%s UnpiFrame.from_buffer'%U),('chunk loop','%s Gateway.data_received'%U)],
 ['messages handed to the application for bytes received on the serial transport'],
 [dict(name='receive buffer',meaning='bytes of the frame being assembled',where='%s Parser.buffer'%U)])
p('C02','Every command goes out as one complete, correctly encoded frame',
 'Every command the driver issues is written to the serial port as exactly one well-formed frame: start byte, payload length, command bytes carrying type, subsystem and command number, the fields in the order and width the MT protocol defines for that command (little endian), and the exclusive-or checksum. Frames are never interleaved, cut or duplicated. A frame the driver writes is parsed back by the driver to the same command and field values.',
 ['inputs'],'all commands of the MT command set whose fields the driver can write, all field values (boundary and random) and payload lengths',
 'tests encode a handful of commands with one value each; there are about 150 host-to-adapter commands with multi-byte fields, addresses, buffers and lists',
 [U,Z,B,D],[('frame encoder','%s UnpiFrame.to_buffer'%U),('field encoder','%s Buffalo.write_parameter'%B),('command table','%s Definition'%D),('object to frame','%s ZpiObject.to_unpi_frame'%Z)],
 ['bytes written to the serial transport'])
p('C03','A bad frame never costs more than itself',
 'A received frame that cannot be processed - wrong checksum, unknown message type, subsystem or command, payload too short for its fields, unsupported field type, or one whose handling fails - has no effect except being dropped. All well-formed frames before and after it, in the same read or in later ones, are delivered as if it had not been there, pending requests keep waiting for their own answer, and no error escapes to the serial transport.',
 ['inputs','fault_sequences'],'every position of every kind of bad frame in a stream of good frames, every chunking, with and without requests in progress',
 'the tests never send the driver an undecodable or unknown frame, let alone one followed by good frames in the same read',
 [U,A,APP],[('per frame error containment','%s Gateway.data_received'%U),('decode errors','%s API.data_received'%A)],
 ['messages handed to the application','results of requests in progress','exceptions raised into the transport'])
p('C04','Received messages are decoded exactly as the MT protocol defines',
 'A received message is decoded into the field names, order, widths and signedness the MT protocol defines for its type, subsystem and command number, for every field value and every variable-length part, whose length is given by the field before it. If the payload is too short for its fields the whole message is rejected rather than delivered with made-up or partial values; surplus trailing bytes change nothing. A message with a field type the driver does not support is rejected.',
 ['inputs'],'all messages of the MT command set (requests seen as indications, responses and indications), all payload lengths including every truncation, boundary and random field values',
 'tests decode about ten messages; the command table has 235 commands, and truncation is tested for none of them',
 [Z,B,D],[('field decoder','%s Buffalo.read_parameter'%B),('parameter loop','%s ZpiObject.read_parameters'%Z),('command table','%s Definition'%D)],
 ['field values of the message handed to the application'])
p('C05','At most one synchronous request is outstanding; order kept, each sent once',
 'Between sending a request that needs an answer (or a reset) and its answer, failure, cancellation or timeout, the driver sends no other command to the adapter. Requests issued directly on one connection are sent in the order in which they were issued, each exactly once, as soon as the adapter is free. A request cancelled before its turn is never sent.',
 ['schedules','histories','fault_sequences'],'all interleavings of concurrent requests, answers, unsolicited messages, cancellations and timeouts',
 'the tests issue single requests against mocks; no test has two requests in flight, a cancellation or a timeout',
 [A],[('request lock','%s API.request_raw'%A),('answer wait','%s API._request_raw'%A)],
 ['order and time of frames written to the serial transport','completion of request calls'],
 [dict(name='request lock',meaning='held from sending until answer or timeout',where='%s API._lock'%A)])
p('C06','A request completes with its own answer, and only a good status is success',
 'A synchronous request returns the first response for the same subsystem and command that arrives after it was sent - never another command\'s response, an indication, or a response that came before - with the fields of that response. If the response carries a status outside the set accepted for the request (success only, unless stated otherwise) the request fails with an error carrying that status; otherwise it succeeds.',
 ['schedules','histories','inputs'],'all interleavings of requests with foreign responses, duplicates, late responses and indications; all 256 status values; requests with and without a status or with extra accepted statuses',
 'tests resolve one request with one matching response; no foreign, duplicate, late or failing response is ever mixed in',
 [A],[('response matching','%s Waiter.match / API.data_received'%A),('status rule','%s API._request_raw'%A)],
 ['result or error of each request call'],
 [dict(name='pending answers',meaning='responses and indications being waited for',where='%s API._waiters'%A)])
p('C07','Every request ends in bounded time and frees the adapter',
 'A synchronous request that is not answered fails with a timeout 6 seconds after it was sent (20 seconds for starting the network stack or commissioning), and never earlier. However a request ends - answer, bad status, timeout, cancellation at any point, send error - the next queued request is sent immediately and behaves as if the failed one had never been issued; an answer arriving after the end is discarded, except that it may be taken by a later identical request it cannot be told apart from.',
 ['schedules','fault_sequences','histories'],'every request kind, every point at which the answer is lost or late or the caller is cancelled, every queue behind it',
 'no test lets a request time out or cancels one',
 [A],[('timeout','%s Waiter.wait'%A),('expiry timer','%s API.wait_for'%A),('lock release','%s API.request_raw'%A)],
 ['time and kind of completion of each request','time of the next frame'])
p('C08','A reset completes only on the adapter\'s reset report',
 'A reset command gets no direct answer: the call completes with the adapter\'s reset indication, or fails with a timeout after 30 seconds without one, and no other command is sent in between. Other one-way commands complete as soon as they are sent. Whoever waits for an indication gets the first one of that kind whose fields match what was asked for, all waiters that match are served by it (a device-management reply which an outstanding request expects goes to that request instead), and a wait that is not served fails at its own deadline.',
 ['schedules','histories','fault_sequences'],'resets racing with queued requests, other indications, lost or late reset reports; several concurrent waits with overlapping conditions',
 'no test performs a reset or waits for an indication with competing ones around',
 [A],[('reset handling','%s API._request_raw'%A),('indication waits','%s API.wait_for'%A)],
 ['completion of the reset call','frames sent meanwhile','results of indication waits'])
p('C09','Device replies reach the application under the right transaction number',
 'A device-management reply (node, simple or active-endpoint descriptor, bind, neighbour table, join permission) from a device is passed to the application exactly once, from that device, as that kind of reply, with unchanged content and with the transaction number (0 to 255) of the oldest outstanding request of that kind to that device. It is passed on whether it arrives before or after the adapter\'s confirmation of the request, up to 10 seconds after the request was made. A reply nobody outstanding asked for is not passed on.',
 ['schedules','histories','inputs'],'all interleavings of requests of several kinds to several devices with replies in any order, duplicates, unsolicited replies, late replies; all 256 transaction numbers',
 'one test sends one request and one reply; correlation among concurrent requests, transaction number 0, duplicates and unsolicited replies are not exercised',
 [A,APP],[('reply expectation','%s API.create_response_waiter'%A),('matching and tagging','%s API.data_received'%A),('forwarding','%s ControllerApplication.handle_znp'%APP)],
 ['messages passed to the application layer'],
 [dict(name='pending answers',meaning='expected replies with their transaction number',where='%s API._waiters'%A)])
p('C10','A failed request leaves nothing behind',
 'When the adapter rejects a unicast, multicast or broadcast, the call returns that status and an explanation instead of raising; when it is accepted it returns success. After a request was rejected, timed out or was cancelled, a reply from that device is no longer attributed to it: it goes to the next outstanding request of that kind, or is dropped.',
 ['schedules','fault_sequences','histories'],'every way a request can fail at every point (queued, sent, reply already received, expectation expired), followed by further requests to the same device',
 'tests only cover success and one failure status with mocks',
 [APP,A],[('status mapping','%s ControllerApplication.request'%APP),('dropping the expectation','%s API._request_raw / remove_waiter'%A)],
 ['return value of the calls','transaction number of replies passed on later'])
p('C11','Incoming application messages reach the application once, unaltered',
 'Every incoming application message (normal or extended form) from a known device, identified by network or 64-bit address as the message says, is passed to the application exactly once and in order of arrival, with its cluster, source and destination endpoints and payload unchanged and its link quality recorded on that device. Messages from unknown devices, adapter responses and adapter status indications are never passed on as device messages.',
 ['inputs','histories'],'all addresses, clusters, endpoints, payload lengths and contents; known, unknown, renamed devices; every other message kind interleaved',
 'tests pass two or three recorded messages; the extended form is never exercised',
 [APP],[('dispatch','%s ControllerApplication.handle_znp'%APP)],
 ['messages passed to the application layer','link quality of the device'])
p('C12','Device announcements register the device under its current address',
 'When the adapter reports that a device joined or rejoined, the application is told of the join with that network and 64-bit address exactly once, and the announcement itself is passed on as a device announcement with transaction number 0 and its original content. From then on messages from the new network address belong to that device, and messages from the address it had before no longer do (no two known devices hold one network address at once).',
 ['histories','inputs'],'all sequences of announcements for new and known devices, with new or unchanged addresses, interleaved with messages from old and new addresses',
 'one test announces one new device; re-announcement with a changed address is not covered',
 [APP],[('announce handling','%s ControllerApplication.handle_znp'%APP)],
 ['join notifications','messages passed to the application layer'])
p('C13','Outgoing messages carry the addressing the caller asked for',
 'A unicast, group or broadcast message of any application profile is handed to the adapter as one data request with the destination, endpoints, cluster, transaction number and payload the caller gave (a group message to all endpoints of the group; a broadcast with the given radius and broadcast address), and a device-management (profile 0) message as the matching management command with the device address and the caller\'s parameters. Nothing is sent that the caller did not ask for.',
 ['inputs'],'all destinations, profiles, clusters, endpoints, transaction numbers, payload lengths 0..99 and contents, radii and broadcast addresses; the management requests that address a device',
 'tests check one example of each kind with mocks of the layer below',
 [APP,Z],[('message mapping','%s ZpiObject.from_cluster'%Z),('senders','%s request/mrequest/broadcast'%APP)],
 ['frames written to the serial transport'])
p('C14','Bounded number of messages in the network; group sends settle',
 'At most as many unicast, group, broadcast and join-permission sends are in progress at once as the adapter type allows (16 for Z-Stack 3.x.0, 2 otherwise); further ones wait and are sent as soon as one finishes. A group or broadcast send counts as in progress, and does not return success, until 200 ms after the adapter accepted it. However a send ends, its place is freed.',
 ['schedules','histories','configurations','fault_sequences'],'all mixes of concurrent sends with answers, rejections, timeouts and cancellations, on both kinds of adapter',
 'no test has more than one send in progress',
 [APP],[('concurrency limit','%s ControllerApplication.startup (semaphore)'%APP),('settle delay','%s mrequest/broadcast'%APP)],
 ['times of frames and of call completion'],
 [dict(name='send slots',meaning='free places',where='%s _semaphore'%APP)])
p('C15','After a successful start the adapter holds the configured network',
 'When starting with network formation allowed returns success, the adapter\'s stored channel mask, network key, key distribution flag, PAN id and extended PAN id equal the configured values (or the documented defaults where nothing is configured), it is marked as configured, and it runs as coordinator. Accepted exception: on Z-Stack 3 an adapter whose stored PAN id is the unset value keeps its random PAN id.',
 ['configurations','histories'],'all combinations of adapter type, stored items that match, differ or are missing, running state, and configurations (including unset values and PAN id 0)',
 'no test runs the start sequence at all',
 [S,N,T],[('comparison','%s needsToBeInitialised'%S),('commissioning','%s initialise'%S),('boot','%s boot'%S),('items','%s Items'%N),('options','%s NetworkOptions'%T)],
 ['contents of the adapter\'s store and its state when the start returns'])
p('C16','A network that already matches is never re-formed',
 'If the adapter is marked as configured and its stored parameters equal the configured ones, starting it - any number of times - resumes the network: no stored network parameter is written, no reset or commissioning is issued, and the stack is started only if it is not already running as coordinator. An adapter on Z-Stack 3 whose stored PAN id is the unset value counts as matching if everything else does.',
 ['configurations','histories'],'all adapter types and states whose store matches, repeated starts and reconnects',
 'no test runs the start sequence; needless re-forming would cut all paired devices off',
 [S],[('comparison','%s needsToBeInitialised'%S),('resume','%s start_znp'%S)],
 ['commands sent to the adapter during start'])
p('C17','An interrupted commissioning is detected and completed at the next start',
 'Commissioning marks the adapter as configured only after every network parameter has been stored (and, on Z-Stack 3, the network was formed). So wherever commissioning of a fresh or differing adapter is interrupted - power loss, link loss, failure at any step - a later undisturbed start never takes a half-written configuration for a valid one and ends with the configured network in place (exception as in C15).',
 ['crash_points','fault_sequences','configurations'],'every step of commissioning as crash or failure point, on every adapter type, from every initial store, followed by another start',
 'no test interrupts (or runs) commissioning',
 [S],[('marker written last','%s initialise'%S),('validation','%s needsToBeInitialised'%S)],
 ['adapter store after the interruption and after the next start'])
p('C18','Start registers the endpoints and the green power group exactly once',
 'A successful start with network formation allowed leaves all thirteen application endpoints registered with the adapter with their profiles, device ids and cluster lists; endpoints the adapter already has are not registered again and each missing one is registered once. The green-power endpoint is a member of its group, added only if it is missing. The application afterwards reports the adapter\'s own 64-bit and network address and has a coordinator device under it.',
 ['configurations','histories'],'all sets of already active endpoints, group present or not, all adapter types and addresses',
 'no test runs the start sequence',
 [S,APP],[('endpoint registration','%s registerEndpoints'%S),('group','%s addToGroup'%S),('coordinator','%s startup'%APP)],
 ['commands sent to the adapter during start','application state after start'])
p('C19','A lost link is reconnected until it works, and never after a close',
 'When the serial link of a running application drops unexpectedly, the driver closes it and, five seconds later, tries to open and start the adapter again, repeating every five seconds after a failed attempt until one succeeds; a link that drops during such an attempt starts this over. At most one port is open and one attempt is in progress at any time. After the application was shut down, or a connection was closed on purpose, no port is opened and none stays open (a link lost during the very first start is the business of whoever started it).',
 ['fault_sequences','schedules','histories'],'all sequences of link losses, failing or hanging opens, silent or failing adapters and shutdowns at every point',
 'no test loses a connection',
 [APP,U,A],[('loss detection','%s Gateway.connection_lost'%U),('reconnect loop','%s reconnect'%APP),('shutdown','%s shutdown'%APP)],
 ['opening and closing of serial ports with times'],
 [dict(name='open flag',meaning='whether a loss is unexpected',where='%s Gateway._open'%U)])
p('C20','Probing a port gives a right answer in time and leaves it closed',
 'Probing a port returns true exactly if the port opens and the adapter answers the version query within two seconds of starting; it returns false - without raising - if the port cannot be opened, the adapter is silent, answers garbage or too late. It never takes longer than two seconds, and whatever happens (also if it is cancelled), every port it opened is closed when it returns.',
 ['fault_sequences','schedules','inputs'],'open failure, hanging open, silence, garbage, late answer, link loss and cancellation at every point of the probe',
 'tests replace the whole probe body by a mock that succeeds or raises',
 [A,U],[('time limit and cleanup','%s API.probe'%A),('open cleanup','%s connect'%U)],
 ['result of the probe, its time, open ports afterwards'])
p('C21','Join permission and its LED follow what the application and adapter say',
 'Opening or closing the network for joining sends one join-permission command to all routers and the coordinator with the given duration (0 to 254 seconds). The adapter\'s LED is switched on when joining becomes permitted and off when it ends, as reported by the adapter, and the LED is never driven on adapters of type Z-Stack 3.x.0, which have no LED support. An LED command that fails affects nothing else.',
 ['inputs','histories','configurations'],'all durations, all sequences of join-permission reports, all adapter types, failing or unanswered LED commands',
 'no test permits joining or looks at the LED',
 [APP],[('permit','%s permit_ncp'%APP),('led','%s set_led / handle_znp'%APP)],
 ['frames written to the serial transport'])
p('C22','The port is chosen and opened as configured, and woken before use',
 'A configured port path is opened as given; with automatic selection the one attached adapter with a known USB identity is opened, and if there is none or more than one, connecting fails without opening anything. The port is opened with the configured baud rate, no parity, one stop bit, and the configured flow control (hardware, software or none). After opening, one wake-up byte (0xEF) is written and no command is sent for one second.',
 ['configurations','inputs'],'all flow control settings, baud rates and paths; all sets of attached serial devices',
 'one test checks three flow control values; automatic selection and the wake-up byte are untested',
 [U,'zigpy_cc/config.py'],[('port detection','%s detect_port'%U),('connect','%s connect'%U)],
 ['parameters with which the port is opened','first bytes written and their times'])
p('C23','A start that did not complete is never reported as success',
 'If any step of starting the adapter is rejected with an unexpected status, is not answered, or the network does not come up in time, the start fails with an error; it never returns success, and it never hangs. Steps after the failing one are not carried out, and the statuses that are acceptable at a step (item just created, stack already started, group not found, marker missing) do not make it fail; a marker whose reading is rejected may count as missing.',
 ['fault_sequences','configurations'],'every step of the start sequence, on every adapter type and start state, failing by every kind of bad status, silence or a missing network-up report',
 'no test runs the start sequence, so none makes one of its steps fail',
 [S,APP,A],[('status checks','%s API._request_raw'%A),('sequence','%s start_znp'%S),('startup','%s startup'%APP)],
 ['result of the start call and the commands sent'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,x['id']
print(len(P))
