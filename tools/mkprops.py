import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/infi/asi/"+f for f in files],mechanism=[dict(name=n,where="src/infi/asi/"+w) for n,w in mech],observe_at=observe,hook_needed=hook)))
I=["inputs"]
p("P01","READ and WRITE commands encode exactly the requested block range and options",
 "For every logical block address, length and block size that a READ(6/10/12/16) or WRITE(6/10/12/16) command accepts, and for every combination of its optional bits (DPO, FUA, protection, group number), the command descriptor block sent to the device is byte-for-byte the one the SCSI block command standard defines for that request. The amount of data requested from (or the data handed to) the device is exactly the requested number of blocks times the block size, with a READ(6) length of zero meaning 256 blocks.",
 I,"all commands x all LBAs x all lengths x block sizes x option bits","tests use a handful of LBAs and lengths, mostly with small constants; the field boundaries (split 21-bit LBA, 16/32/64-bit fields, group/protect bits) are never swept",
 ["cdb/read.py","cdb/write.py","cdb/control.py","cdb/operation_code.py"],[("struct layouts and execute()","cdb/read.py"),("struct layouts and execute()","cdb/write.py")],["the request handed to the executer"])
p("P02","Block I/O that cannot be represented is rejected before anything is sent",
 "A READ, WRITE, WRITE SAME or COMPARE AND WRITE request whose block address or block count does not fit the chosen command form, or whose buffer is not a whole number of blocks, raises an error and no command reaches the device; conversely every request that fits (except the block counts of zero and the like that a form documents as excluded) is accepted. A request is never silently truncated or wrapped to a different block range.",
 I,"all addresses/counts inside and outside each field's range, all buffer lengths around block multiples","tests check one or two out of range values; truncation can hide at any boundary",
 ["cdb/read.py","cdb/write.py","cdb/write_same.py","cdb/compare_and_write.py"],[("range assertions","cdb/read.py"),("range and multiple assertions","cdb/write.py")],["exception raised, absence of a request at the executer"])
p("P03","WRITE SAME, COMPARE AND WRITE and UNMAP encode their request and payload exactly",
 "For every accepted request, WRITE SAME(10/16), COMPARE AND WRITE and UNMAP send the descriptor block the standard defines and exactly the caller's buffer; UNMAP's parameter list holds every requested range once, in order, with header lengths that match the list actually sent.",
 I,"all addresses, counts, option bits, buffers and range lists","tests use single fixed vectors; header length arithmetic and multi-range lists are not swept",
 ["cdb/write_same.py","cdb/compare_and_write.py","cdb/unmap.py"],[("execute() and parameter list building","cdb/unmap.py"),("struct layouts","cdb/write_same.py"),("struct layout","cdb/compare_and_write.py")],["the request handed to the executer"])
p("P04","Inquiry, capacity, LUN, port, log, copy, SES and reserve CDBs are exact",
 "For every argument they accept, INQUIRY (standard and every VPD page), TEST UNIT READY, READ CAPACITY(10/16), REPORT LUNS, REPORT TARGET PORT GROUPS, LOG SENSE, RECEIVE COPY OPERATING PARAMETERS, RECEIVE DIAGNOSTIC RESULTS, RESERVE(6/10) and RELEASE(6/10) put on the wire the descriptor block (and, for third-party reservations, the parameter list) that the SCSI standards define for those arguments.",
 I,"all commands x all argument values","tests execute each command once with default arguments and mostly check the reply, not the bytes sent",
 ["cdb/inquiry/__init__.py","cdb/inquiry/standard.py","cdb/inquiry/vpd_pages/__init__.py","cdb/tur.py","cdb/read_capacity.py","cdb/report_luns.py","cdb/rtpg.py","cdb/log_sense.py","cdb/receive_copy_operating_parameters.py","cdb/diagnostic/__init__.py","cdb/diagnostic/ses_pages/__init__.py","cdb/reserve.py","cdb/release.py"],[("command layouts","cdb/log_sense.py"),("command layouts","cdb/reserve.py")],["the request handed to the executer"])
p("P05","PERSISTENT RESERVE IN/OUT requests carry exactly the caller's action and keys",
 "For every service action, reservation type, pair of keys, option bit and transport identifier, PERSISTENT RESERVE OUT sends the standard's descriptor block and parameter list with exactly those values and a matching parameter list length, and PERSISTENT RESERVE IN sends the requested service action and allocation length; an unknown OUT service action or a too small IN allocation is rejected without sending anything.",
 I,"all service actions x types x 64-bit keys x flags x transport IDs","tests check single vectors for a few service actions; option bits and REGISTER AND MOVE are not swept",
 ["cdb/persist/input.py","cdb/persist/output.py","cdb/persist/transport.py"],[("command and parameter list buffers","cdb/persist/output.py"),("command buffer","cdb/persist/input.py")],["the request handed to the executer"])
p("P06","Every command issues exactly one request and delivers its outcome unchanged",
 "Executing any command object issues exactly one request: a read whose length equals the allocation or transfer length encoded in its descriptor block, or a write carrying its payload. A successful reply becomes the command's result, and whatever error the device layer raises reaches the caller as that same error. Nothing is ever sent again, however short or odd the reply, and a decoding command that received no data at all raises instead of making up a result.",
 ["inputs","fault_sequences"],"all command types x arguments x success or any raised error","tests exercise success replies and a couple of check conditions, not every command's failure path",
 ["cdb/read.py","cdb/write.py","cdb/tur.py","cdb/log_sense.py","cdb/report_luns.py","cdb/persist/input.py","coroutines/sync_adapter.py"],[("execute() coroutines","cdb/read.py"),("stack unwinding","coroutines/sync_adapter.py")],["requests recorded at the executer, value or exception seen by the caller"])
p("P07","Standard INQUIRY data is decoded exactly, whatever part the device returned",
 "For every standard INQUIRY reply of at least the mandatory 36 bytes, each decoded field (device type and qualifier, capability bits, version, vendor, product and revision strings without their trailing padding, version descriptors, vendor-specific areas) equals the value at its standard position, and fields that lie beyond the returned or declared data are reported as absent rather than invented. Decoding never fails because the device declares more data than was fetched.",
 I,"all 36..260-byte replies and declared lengths","tests decode a few captured replies",
 ["cdb/inquiry/standard.py","cdb/inquiry/__init__.py"],[("field map","cdb/inquiry/standard.py")],["attributes of the decoded object"])
p("P08","Limits, provisioning, serial, page-list and unknown VPD pages decode exactly",
 "For every well-formed reply, the Supported Pages, Unit Serial Number, Block Limits, Logical Block Provisioning, Veritas vendor and unrecognised VPD pages decode every field to the value at its standard position, with variable-length content bounded by the page's own length field.",
 I,"all field values and page lengths of each page","tests decode one captured sample per page",
 ["cdb/inquiry/vpd_pages/supported_pages.py","cdb/inquiry/vpd_pages/unit_serial_number.py","cdb/inquiry/vpd_pages/block_limits.py","cdb/inquiry/vpd_pages/logical_block_provisioning.py","cdb/inquiry/vpd_pages/veritas.py","cdb/inquiry/vpd_pages/unknown.py"],[("field maps","cdb/inquiry/vpd_pages/block_limits.py")],["attributes of the decoded page"])
p("P09","Device Identification yields every designator, in order, with its exact identity",
 "For every well-formed Device Identification page, the decoded list has one entry per descriptor in the page and in the same order, each of the kind its type (and NAA or EUI-64 length) selects, with all identifier parts equal to the values at their standard positions; a list of any mix and length up to the page length is consumed exactly. Unknown or reserved designators do not stop the known ones from being decoded unless the page is rejected with an error.",
 I,"all sequences of descriptors of all types, lengths and contents","tests decode a few captured pages with common designators",
 ["cdb/inquiry/vpd_pages/device_identification.py","cdb/inquiry/vpd_pages/designators.py"],[("designator selection","cdb/inquiry/vpd_pages/designators.py")],["designators_list of the decoded page"])
p("P10","ATA Information page decodes SAT identity and embedded device data exactly",
 "For every ATA Information page, the SAT vendor, product and revision strings, the device signature registers, the command code and the embedded IDENTIFY data equal the bytes at their standard positions, for all register values and all ASCII identity strings.",
 I,"all register values and ASCII strings of the page","tests decode one captured page",
 ["cdb/inquiry/vpd_pages/ata_information.py"],[("field map","cdb/inquiry/vpd_pages/ata_information.py")],["attributes of the decoded page"])
p("P11","Capacity, target port group and copy parameter replies are decoded exactly",
 "For every well-formed reply, READ CAPACITY(10/16), REPORT TARGET PORT GROUPS (both formats) and RECEIVE COPY OPERATING PARAMETERS decode every field, group, port and list entry to the value at its standard position, with as many list entries as the reply declares.",
 I,"all field values, group counts, port counts and list lengths","tests decode one sample per command with small counts",
 ["cdb/read_capacity.py","cdb/rtpg.py","cdb/receive_copy_operating_parameters.py"],[("field maps","cdb/rtpg.py"),("field map","cdb/receive_copy_operating_parameters.py")],["attributes of the decoded response"])
p("P12","REPORT LUNS returns the exact LUN list or refuses unsupported addressing",
 "For every LUN inventory, REPORT LUNS returns the list of LUN numbers in the device's order together with their raw 64-bit forms; when any entry uses multi-level or non-simple addressing the command raises the matching unsupported-addressing error, unless the caller opted in, in which case every entry is still reported. With an allocation below one entry the raw reply is returned unchanged.",
 I,"all LUN lists, addressing methods, allocation lengths and the opt-in flag","tests decode one list",
 ["cdb/report_luns.py"],[("normalize_lun_list","cdb/report_luns.py")],["lun_list / hex_lun_list of the result, exception raised"])
p("P13","PERSISTENT RESERVE IN replies decode to exactly the registered keys and holders",
 "For every well-formed READ KEYS, READ RESERVATION, REPORT CAPABILITIES and READ FULL STATUS reply, the decoded generation, keys, holder, type, scope, capability bits and full status descriptors equal the values in the reply. When the reply was truncated by the allocation length, the content that did not arrive is reported as absent and the allocation length required to get it all is computed correctly.",
 I,"all registrations, reservations, capability bits, descriptor lists and truncations","tests decode one sample per service action",
 ["cdb/persist/input.py","cdb/persist/transport.py"],[("response buffers","cdb/persist/input.py")],["attributes and required_allocation_length() of the result"])
p("P14","SES configuration, supported, vendor and unknown pages decode exactly",
 "For every well-formed page, the SES Configuration page decodes to exactly its enclosures, type headers and type texts, the Supported Pages and vendor 80h pages to exactly the bytes their page length covers, and an unrecognised page to its code and payload.",
 I,"all enclosure/type counts, text lengths, field values and payloads","tests decode one or two captured pages",
 ["cdb/diagnostic/ses_pages/configuration.py","cdb/diagnostic/ses_pages/supported_pages.py","cdb/diagnostic/ses_pages/vendor_0x80.py","cdb/diagnostic/ses_pages/unknown.py"],[("field maps","cdb/diagnostic/ses_pages/configuration.py")],["attributes of the decoded page"])
p("P15","SES enclosure status is attributed to the right element with the right flags",
 "For every enclosure configuration and every matching Enclosure Status page, the decoded status has one group per configured element type holding an overall element and one status per possible element, each interpreted by its element type, with every status code, flag and reading equal to the value at its standard position.",
 I,"all configurations (element types x counts up to 255) x all status bytes","tests decode one captured page; most element types never appear in it",
 ["cdb/diagnostic/ses_pages/enclosure_status.py","cdb/diagnostic/ses_pages/configuration.py"],[("element type dispatch","cdb/diagnostic/ses_pages/enclosure_status.py")],["status_descriptors of the decoded page"])
p("P16","SES element descriptors are attributed to the right element",
 "For every enclosure configuration and every matching Element Descriptor page, the decoded page has one group per configured element type with an overall descriptor and one descriptor text per possible element, in order and with exactly the bytes the page holds for it.",
 I,"all configurations x all descriptor lengths and contents","tests decode one captured page",
 ["cdb/diagnostic/ses_pages/element_descriptor.py"],[("descriptor walk","cdb/diagnostic/ses_pages/element_descriptor.py")],["element_descriptors of the decoded page"])
p("P17","Bytes beyond a reply's declared length never change what is decoded",
 "The operating systems return a buffer of the full allocation length, so for every reply that carries its own length, decoding it followed by any trailing bytes gives the same result as decoding it alone.",
 I,"all length-carrying replies x all trailing bytes up to the allocation length","tests feed exact-length or zero-padded captures, never both or arbitrary residue",
 ["cdb/inquiry/standard.py","cdb/inquiry/vpd_pages/supported_pages.py","cdb/inquiry/vpd_pages/device_identification.py","cdb/inquiry/vpd_pages/logical_block_provisioning.py","cdb/persist/input.py","cdb/report_luns.py","cdb/rtpg.py","cdb/diagnostic/ses_pages/supported_pages.py","cdb/diagnostic/ses_pages/vendor_0x80.py","cdb/diagnostic/ses_pages/unknown.py"],[("length-bounded field references","cdb/inquiry/vpd_pages/device_identification.py")],["decoded results with and without trailing bytes"])
p("P18","Check condition sense data is decoded exactly in fixed and descriptor format",
 "For every sense buffer in fixed or descriptor format, the error raised for the failed command carries the raw sense bytes and a decoded object whose response code, sense key, additional sense code and qualifier, information and other fields (and, for descriptor format, every descriptor) equal the values at their standard positions; an unrecognised response code still raises the check condition error with its bytes, without being presented as either format.",
 I,"all sense bytes, response codes, descriptor lists","tests decode a couple of captures",
 ["sense/__init__.py","errors.py","__init__.py"],[("format selection","sense/__init__.py"),("_check_condition","__init__.py")],["the exception's sense_buffer and sense_obj"])
p("P19","Additional sense codes are named by the standard's assignment",
 "Every additional sense code and qualifier pair assigned by the published ASC/ASCQ list that the library knows resolves to its assigned name, including the whole ranges assigned to diagnostic failure, tagged overlapped command and decompression exception, and every other pair to a text stating both numbers; no pair makes formatting a sense object fail.",
 I,"all 65536 code/qualifier pairs","tests look at two or three codes",
 ["sense/asc.py"],[("ASC_CODES table","sense/asc.py")],["code_name and repr of the decoded sense"])
p("P20","Page codes always resolve to the matching decoder and command",
 "For every page code, asking for its VPD or diagnostic page gives a command that requests that very page with the vital-product (or page-code-valid) bit set and decodes the reply with the decoder for that page, falling back to a generic decoder that preserves the payload for codes without a dedicated one.",
 I,"all 256 page codes of both families","tests request a few pages",
 ["cdb/inquiry/vpd_pages/__init__.py","cdb/diagnostic/ses_pages/__init__.py","cdb/inquiry/vpd_pages/unknown.py","cdb/diagnostic/ses_pages/unknown.py"],[("dispatch tables","cdb/inquiry/vpd_pages/__init__.py"),("dispatch tables","cdb/diagnostic/ses_pages/__init__.py")],["the CDB sent and the decoded reply"])
p("P21","Serialising a parsed structure reproduces its bytes and values",
 "For the reply structures the library can also build (INQUIRY data, VPD pages and designators, reservation and target structures, sense descriptors), packing an object and parsing the result gives back equal field values, self-computed lengths match the content, and packing a parsed canonical reply reproduces its bytes.",
 I,"all field values of every packable structure","tests pack a few structures with fixed values",
 ["cdb/inquiry/standard.py","cdb/inquiry/vpd_pages/designators.py","cdb/inquiry/vpd_pages/unit_serial_number.py","cdb/inquiry/vpd_pages/unknown.py","cdb/persist/transport.py","cdb/receive_copy_operating_parameters.py","sense/__init__.py"],[("set_before_pack lengths","cdb/inquiry/vpd_pages/designators.py")],["packed bytes and re-parsed fields"])
p("P22","Linux SG requests carry the command, direction, data and timeout faithfully",
 "For every command sent through the Linux SG executer, the request structure written to the device holds exactly the caller's descriptor block, transfer direction, data or a buffer of the requested size, the configured timeout in milliseconds, a valid sense buffer and a tag unique among outstanding requests.",
 I,"all descriptor blocks, data, lengths, timeouts","tests replay a recorded structure",
 ["linux.py","__init__.py"],[("request structure building","linux.py")],["raw bytes written to the device and the buffers they point to"])
p("P23","Linux SG completion statuses are never mistaken for success or each other",
 "For every combination of SCSI status, host status and driver status a completion can carry, the command returns its data (or nothing for non-reads) only if all report success; check conditions raise the check condition error with the sense data, a reservation conflict raises the reservation conflict error, and every other failure raises an error of the library.",
 ["inputs","fault_sequences"],"all status x host status x driver status x sense x direction combinations","tests cover good status and one check condition",
 ["linux.py","errors.py"],[("response translation","linux.py")],["value returned or exception raised by call()"])
p("P24","Responses reach the request that caused them, whatever the completion order",
 "For every interleaving of sends, blocking calls and waits, and every order in which the device completes outstanding requests, each request's callback is invoked exactly once with that request's own data or error, waiting drains every outstanding request, and a response with an unknown tag raises an internal error without disturbing the others.",
 ["histories","schedules"],"all send/call/wait histories x completion orders x per-request outcomes","tests send one command at a time, or a batch completed in order",
 ["__init__.py","linux.py"],[("pending request table and tag allocation","__init__.py")],["callback invocations, results of call()"])
p("P25","The request queue is bounded and survives failures to send",
 "At most the configured number of requests is outstanding: a send beyond that raises the queue-full error, the full indication agrees, and nothing is sent. A request that cannot be made or whose transmission fails raises that error to its sender, frees its slot and never completes later, and all other requests are unaffected.",
 ["histories","fault_sequences"],"all histories of sends, completions and transmission errors around the queue limit","tests never fill the queue or fail a write",
 ["__init__.py","errors.py"],[("queue bound and cleanup in send","__init__.py")],["exceptions, requests seen by the device, queue-full indication"])
p("P26","Linux ioctl pass-through reports every completion status",
 "The synchronous Linux pass-through used for device-mapper devices sends exactly the caller's request, and for every completion status raises the corresponding error (check condition with its sense data, reservation conflict, other SCSI error, operating system error) and returns the data only on success; after any failure the next command works.",
 ["inputs","fault_sequences","histories"],"all statuses and operating system errors over command sequences","no test completes an ioctl with an error",
 ["linux.py"],[("ioctl send/receive","linux.py")],["value returned or exception raised by call()"])
p("P27","Solaris pass-through carries requests and reports completions faithfully",
 "For every command and completion status, the Solaris executer hands the driver exactly the caller's descriptor block, direction, data and timeout, returns the data only on success, and raises the check condition error with sense data, a SCSI error or an operating system error otherwise; after any failure the next command works.",
 ["inputs","fault_sequences","histories"],"all requests x statuses over command sequences","tests need real hardware or a recorded mock with good status",
 ["solaris.py"],[("request building and response translation","solaris.py")],["structure seen by ioctl, value or exception of call()"])
p("P28","AIX pass-through carries requests and reports completions faithfully",
 "For every command and completion status, the AIX executer hands the driver exactly the caller's descriptor block, direction, data and timeout, returns the data only on success, and raises the check condition error with sense data, a SCSI error (bus or adapter) or an operating system error otherwise; after any failure the next command works.",
 ["inputs","fault_sequences","histories"],"all requests x statuses over command sequences","tests need real hardware or a recorded mock with good status",
 ["aix.py"],[("request building and response translation","aix.py")],["structure seen by ioctl, value or exception of call()"])
p("P29","Windows pass-through carries requests and reports completions faithfully",
 "For every command and completion status, the Windows executer hands the driver exactly the caller's descriptor block, direction and data, returns exactly the data transferred on success, and raises the check condition error with sense data, a SCSI error or an operating system error otherwise; outstanding requests each get their own result.",
 ["inputs","fault_sequences","histories"],"all requests x statuses x transferred lengths over command sequences","the Windows code is not importable by the tests on this platform",
 ["win32.py"],[("request building and response translation","win32.py")],["structure seen by the driver call, value or exception of call()"])
p("P30","Overlapped commands complete in any order and results keep the callers' order",
 "Running several commands concurrently with the asynchronous reactor returns each command's own result in the order the commands were given, for every order in which their I/O completes and every number of I/O steps each performs; an error in one command is raised to the caller.",
 ["schedules","fault_sequences"],"all numbers of commands, steps per command and completion orders","needs Windows; the tests do not run it",
 ["win32.py","coroutines/sync_adapter.py"],[("reactor loop","win32.py"),("AsyncCoroutine","coroutines/sync_adapter.py")],["list returned by the reactor"])
p("P31","Nested coroutines behave like ordinary nested calls",
 "For every tree of nested coroutines, running it synchronously gives the value the equivalent nested calls would give: sub-coroutine results reach the coroutine that awaited them, an exception propagates outward through each waiting coroutine until handled, handlers and cleanup blocks run exactly once in the right order, and code after a handled exception continues normally. Each coroutine is started exactly once.",
 ["programs","fault_sequences"],"all generated coroutine trees with values, nesting, raises, handlers, cleanup and async tokens","tests run straight-line command coroutines",
 ["coroutines/sync_adapter.py"],[("explicit stack unwinding","coroutines/sync_adapter.py")],["result, exception and event trace of the run"])
p("P32","Device handles are closed exactly once, however the work ends",
 "Every platform's executer context opens the named device once, hands out a working executer over it, and closes the handle exactly once when the block ends normally, raises anything, or the executer fails, propagating the block's exception unchanged.",
 ["fault_sequences","configurations"],"all platforms x all ways a block can end","tests do not check closing on failures",
 ["executers.py","__init__.py","unix.py"],[("context managers","executers.py")],["open/close calls and the propagated exception"])
p("P33","Unix device files move data faithfully and time out rather than block forever",
 "Reading a Unix device handle returns exactly the bytes available up to the requested size, waits for data that arrives late, and raises a timeout error within the configured limit if none arrives; writing passes exactly the given bytes; closing releases the descriptor.",
 ["inputs","schedules"],"all sizes, contents, arrival delays and timeouts","tests do not exercise late or missing data",
 ["unix.py"],[("select loop","unix.py")],["bytes moved through real descriptors, exceptions"])
p("P34","Device I/O yields to other green threads after each blocking operation",
 "When gevent is present, every blocking device operation an executer completes is followed by a scheduling yield before the next one, and wrapping a function for this never changes its arguments, result or exception.",
 ["inputs","histories"],"all operation sequences and outcomes","gevent is not installed in the test environment",
 ["__init__.py","linux.py","solaris.py","aix.py"],[("gevent_friendly","__init__.py")],["order of I/O operations and yields"])
p("P35","Commands run against a block device have exactly the effect they describe",
 "For every sequence of reads, writes, compare-and-writes, write-sames, unmaps, inquiries and capacity queries executed through the Linux SG executer against a standard-conforming disk, every read returns what the preceding commands wrote, the media ends in the state the same operations give on a simple array, and failed commands (miscompare, out-of-range, busy) raise and leave it unchanged.",
 ["histories","inputs"],"all command histories over all addresses, sizes and command forms","tests never run a history; a disk is needed",
 ["cdb/read.py","cdb/write.py","cdb/write_same.py","cdb/compare_and_write.py","cdb/unmap.py","cdb/read_capacity.py","linux.py","__init__.py"],[("whole stack","linux.py")],["data returned and media contents of a simulated disk"])
p("P36","Commands and replies are independent values",
 "Building, configuring, executing or decoding one command or reply never affects another: objects built with the same arguments behave identically whatever was done before them, executing the same command again sends the same request and makes the same of the same reply, and a decoded reply does not change when later replies are decoded.",
 ["histories"],"all interleavings of building, changing, executing and decoding several objects","tests build one object at a time",
 ["cdb/__init__.py","cdb/control.py","cdb/unmap.py","cdb/reserve.py","cdb/inquiry/vpd_pages/__init__.py"],[("shared defaults and class-level state","cdb/control.py")],["requests and decoded fields across a history"])
p("P37","Malformed or truncated replies end in an error or a faithful partial result",
 "Whatever bytes a device returns, decoding terminates and either raises an error or yields an object whose values come from the bytes received; it never loops forever or reports data past the end of the reply, and the same executer then decodes the next reply correctly.",
 ["inputs","fault_sequences"],"all byte strings up to the allocation length for every decoder","tests only feed valid captures",
 ["cdb/inquiry/standard.py","cdb/inquiry/vpd_pages/designators.py","cdb/persist/input.py","cdb/rtpg.py","cdb/report_luns.py","cdb/diagnostic/ses_pages/configuration.py","sense/__init__.py"],[("length-bounded decoding","cdb/inquiry/vpd_pages/designators.py")],["termination, exception class, decoded content"])
p("P38","Platform entry points pick the right device, executer and options",
 "Opening a file, an asynchronous file, a command executer or a reactor through the platform-independent entry points, and using the executer contexts, gives for each supported platform the handle (right path, right access mode) and executer of that platform, set up with exactly the options given and the documented defaults for the rest, so every command reaches the device the executer was made for; an unsupported platform is refused and nothing is opened or sent. Device-mapper nodes on Linux are driven through the SG_IO ioctl, other SG devices through read and write.",
 ["configurations","histories"],"all platform names, option combinations and histories over several open devices","tests run only on the host's own platform and never open two devices",
 ["__init__.py","executers.py","unix.py","win32.py","linux.py"],[("create_platform_command_executer","__init__.py"),("executer contexts","executers.py")],["opens with their flags, requests per device, timeouts in requests, exceptions"])
p("P39","Pass-through executers keep queued requests apart",
 "On the ioctl-based executers (Linux SG_IO, Solaris, AIX, Windows), when several requests are queued before waiting, each accepted request reaches the device exactly once, an error at send time is raised to the sender and leaves nothing queued, sends beyond the limit raise the queue-full error and send nothing, and by the end of wait each accepted request's callback is called exactly once with the outcome of its own command; call() returns its own command's result, and is_queue_full agrees throughout.",
 ["histories","fault_sequences","inputs"],"all histories of sends, calls and waits with queues of any length and every completion","tests use one command at a time on fake devices",
 ["__init__.py","linux.py","solaris.py","aix.py","win32.py"],[("send, call and wait","__init__.py"),("response handling","linux.py")],["device requests, callbacks with their results, returned values, exceptions"])
p("P40","Error texts and name tables state every code under its own name",
 "The error raised for a failing status from the operating system or device states each failing status (SCSI, driver, host, adapter, transport reason, invalid argument) by its number and, where the platform headers name it, under that name and no other; and the published name tables (device types, versions, VPD pages, designator types, associations, code sets, element types and statuses, fan speeds, sense keys, status codes, reservation actions and types) give each code the standard's name and no unassigned code an assigned name.",
 ["inputs"],"all combinations of status codes on all platforms, and all codes of every table","tests check one status and no table",
 ["linux.py","solaris.py","aix.py","win32.py","__init__.py","sense/__init__.py","cdb/inquiry/vpd_pages/__init__.py","cdb/diagnostic/ses_pages/configuration.py","cdb/diagnostic/ses_pages/enclosure_status.py"],[("prettify_status","linux.py"),("name tables","cdb/inquiry/vpd_pages/__init__.py")],["error text, values of the published tables"])
p("P41","Threads working on different devices do not disturb one another",
 "When several threads each open their own devices and run commands through their own executers, every command gives the result, sends the request and raises the error that the same thread's program gives when it runs alone, and every device is opened and closed as often, however the threads are scheduled; nothing a thread received changes afterwards.",
 ["schedules","histories"],"all programs of up to four threads on all platforms, every kind of command, failing ones included, and all schedules at line granularity","tests use one thread",
 ["__init__.py","coroutines/sync_adapter.py","linux.py","solaris.py","aix.py","win32.py","executers.py","cdb/diagnostic/ses_pages/enclosure_status.py","cdb/diagnostic/ses_pages/element_descriptor.py"],[("sync_wait and executers without shared state","coroutines/sync_adapter.py"),("page classes made per configuration","cdb/diagnostic/ses_pages/enclosure_status.py")],["requests, results and errors of every thread"])
p("P42","Commands and wrappers defined by a user work like the library's own",
 "A command class a user derives from the library's command base classes packs exactly the values its object holds at that moment, sends what its execute generator asks for (several requests and nested commands included), receives each request's data or error at the point that asked for it, and shares no state with other commands of its class; executer adapters stacked in any order pass requests, results and errors through exactly as their wrapper functions say, on every platform.",
 ["inputs","histories","fault_sequences"],"all command classes of both styles, execute programs, adapter stacks and fault sequences on all platforms","tests only use the built-in commands and one adapter",
 ["__init__.py","cdb/__init__.py","cdb/control.py","cdb/operation_code.py","coroutines/sync_adapter.py"],[("CDB and CDBBuffer","cdb/__init__.py"),("CommandExecuterAdapter","__init__.py"),("sync_wait","coroutines/sync_adapter.py")],["packed descriptor blocks, device requests, results and errors inside the user's code"])
p("P43","Decoded replies and check conditions can be shown in full",
 "Showing a decoded reply, a command or a check condition error never raises, gives the same text each time, and changes nothing; what the text of a reply states under a field's name is the value that was decoded, and the text of a check condition states the sense bytes as the device sent them together with the decoded sense values.",
 ["inputs","histories"],"all replies of every decoder, damaged but decodable ones included, and all sense data on every platform","tests print a few fixed replies at most",
 ["errors.py","sense/__init__.py","sense/asc.py","cdb/inquiry/standard.py","cdb/rtpg.py","cdb/report_luns.py","cdb/diagnostic/ses_pages/enclosure_status.py"],[("AsiCheckConditionError","errors.py"),("AdditionalSenseCode.to_repr","sense/asc.py")],["repr of replies and commands, str of errors"])
p("P44","Finished work leaves nothing behind",
 "What the library keeps alive does not grow with the amount of work done: however many commands an executer or a command object has run, contexts have been opened and closed, coroutines have been waited for and replies and sense data have been decoded and shown - with whatever outcome, refusals, device and system errors and raising callbacks included - memory held for finished work stays within a fixed bound.",
 ["histories","faults"],"any number of repetitions of any work, with the same or varying contents and outcomes","tests run a handful of commands in a process and never look at what stays alive",
 ["__init__.py","linux.py","solaris.py","aix.py","win32.py","unix.py","errors.py","executers.py","coroutines/sync_adapter.py","sense/__init__.py","cdb/inquiry/vpd_pages/__init__.py","cdb/diagnostic/__init__.py"],[("CommandExecuterBase","__init__.py"),("_SyncAdapter","coroutines/sync_adapter.py"),("AsiCheckConditionError","errors.py")],["memory of a long-running process"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    for f in x["anchors"]["files"]:
        import os; assert os.path.exists("/repo/"+f),f
print(len(P))
