SCAN = "abstract interpretation of the generated parsing automata: facts relating cursor, mark, buffer and input length at every state, computed to a fixpoint"
check("S01", SCAN + "; every possible panic as an obligation to be discharged", "All states and transitions of both automata and every path of sdp.Parse, for inputs of every length." + BASE)
check("S02", SCAN + "; every cycle of states must advance the cursor, every other loop must have a finite bound", "All cycles of both automata, rewinds included, and every loop and recursion reachable from the parsers." + BASE)
check("S03", SCAN + "; linear forms of every number field compared with the digits read", "All number fields of both automata, for runs of digits of every length." + BASE)
check("S04", SCAN + "; the parts of every linked element must be present", "Every edge of both automata that links a list element." + BASE)
check("S05", SCAN + "; product of the automaton with the tree of header names, fields stored for each name compared with its own", "Every recognised name in full and short form and any case, every other token, from its first letter to the next header." + BASE)
check("S06", AI + " with the written text kept as a sequence of constants and field values; each line's name looked up in the table the parsing automaton gives", "Every field of a message alone and with the others, every other field unknown; lists of none to three elements." + BASE)
check("S07", AI + " with an automaton of the written text whose input is the set of values each written byte can have on its path; text written as a whole is judged by one arbitrary byte of it", "Every byte value at every position of every such field, texts of every length, alone and in lists." + BASE)
check("S08", AI + " with an automaton of lines over the written text", "Every combination of set and unset fields (the states of the line automaton at every join), every payload kind and length." + BASE)
check("S09", SCAN + "; product with the last bytes read, comparison of the payload's bounds with the cursor and the declared length", "Every path from the start of a message to its acceptance, every declared length and content type." + BASE)
check("S10", AI + ", comparison of the copy with its original field by field and cell by cell", "Every Copy method, every field at every level, lists of none to three elements; every structure of the copied lists is shown to be a new one, so no later change can pass between them." + BASE)
check("R01", AI + " with bit-level provenance of every header byte",
  "Every bit of the 12 written header bytes and of every field read back is compared with RFC 3550 for all field values at once; lengths 0-11, other versions and the extension bit are covered by case split." + BASE)
check("R02", AI + " with bit-level provenance; constant tables read from the initialised abstract heap",
  "All events, volumes, durations and all 256 characters are covered." + BASE)
check("R03", AI + "; comparison of header and payload provenance at every socket write",
  "Every path through Send and SendRaw from an arbitrary session state, with symbolic samples and payload bytes." + BASE)
check("R04", AI + "; trace of socket writes and their header and payload bytes on every path",
  "Every digit and every point at which a write can fail." + BASE)
check("R05", AI + " of every datagram; extraction of communication automata and exhaustive exploration of their product",
  "All datagrams, by their first two bytes (511 cases), length and payload symbolic; every joint state of receiver, owner, Close and CloseAfterError." + BASE)
check("R06", AI + " with intervals and parity over every ListenPacket call",
  "Every path of the retry loop, each attempt succeeding or failing for either kind of reason." + BASE)
check("D09", AI + "; field-by-field comparison, through pointers, of the built message with the required sources",
  "NewResponse, NewCancel, NewAck and NewBye on messages of independent unknown fields, route sets of 0 to 3 elements." + BASE)
check("D11", AI + "; comparison of returned host and port and of the message afterwards with the routing rules",
  "Responses and requests with 0 to 3 Via or Route elements, own hop present or not, every combination of received, rport and lr; RouteAddress and Transport.Send for the default port." + BASE)
check("D10", AI + "; comparison of the message at its first write with what the caller supplied",
  "Every field supplied or missing alone or together, parameter lists unknown; the transport's send and a call's first request." + BASE)
STEP = AI + "; exhaustive walk over the paths of each step of the call's event loop and comparison of the recorded actions"
STEPN = " Steps start from each kind of call state with unknown contents (unanswered, ringing, answered, re-INVITE unacknowledged, BYE pending; destinations left; second socket), not from one sampled call; a network operation that fails is one of the paths."
check("D01", AI + " with every possible panic as an obligation to be discharged", "Every kind of event in every kind of call state with arbitrary messages; the receiver with route sets of 0 to 4 elements; replies completed, routed and written out." + BASE)
check("D04", STEP, "Every path on which the loop is left, for every kind of event." + STEPN + BASE)
check("D05", STEP, "All final and provisional status ranges, with and without Contact and session description, mismatching responses and all other events." + STEPN + BASE)
check("D06", STEP, "All methods, orders, hop limits, Call-IDs and versions, alone and after another request; responses of every class." + STEPN + BASE)
check("D07", STEP + "; comparison of every field of the call's state before and after", "All ways a message fails to match, for all status classes and methods." + STEPN + BASE)
check("D08", STEP, "Timer events with and without retransmissions and destinations left; redirects bounded by a counter that every other step keeps." + STEPN + BASE)
check("D02", "interprocedural alias flow over the parser's intermediate code; " + AI + " of every reader of datagrams",
  "Every place in the parser that keeps a slice of its input, and every function that parses what it reads." + BASE)
check("D03", STEP + "; communication automata of the receiver and of every ending of the call, and exhaustive exploration of their product",
  "Every ending of every step (about 8500) with every interleaving of the receiver that still runs; sockets closed and channels closed once." + STEPN + BASE)
check("D13", STEP, "All status classes and methods with every kind of payload, and histories of up to four events." + STEPN + BASE)
check("D14", STEP, "Refusals in each form, timeouts and 503 with 0 to 2 destinations left, and histories of them." + STEPN + BASE)
check("D16", STEP, "Hang-up in every state and after histories of answers, re-INVITEs, redirects and failovers." + STEPN + BASE)
check("D15", AI + "; comparison of the message delivered on the channel with the datagram's source",
  "All hosts, ports and source addresses; received and rport absent, empty or filled; one or two Via, requests and responses." + BASE)
check("D12", AI + "; counting of bit provenance from the random source",
  "Every path of the generators; a random source that fails is one of the cases." + BASE)
check("M01", AI + " with split lines as named pieces; the readers of a media line judged path by path and used as contracts in the analysis of the whole parser", "Parse is analysed for any number of lines. The media reader is analysed for lines of one to five pieces, the codec reader for up to two payload types, two rtpmap lines and two fmtp lines, with every text unknown. Which of two media lines a medium comes from is M04." + BASE)
check("M04", AI + "; each path of the parser compared with what every kind of line that fits the path says", "Descriptions with one line of unknown text before, between or after constant lines of all kinds (thirteen kinds of unknown line, fourteen other lines); the readers of media lines, judged by M01, are replaced by what they were given. New for an unknown address and up to three codecs. Two lines of unknown text at once are not analysed." + BASE)
check("M02", AI + " with the written text kept as a sequence of constants and field values, judged line by line", "Every shape of a description with none to three codecs per medium and none to three attributes, all fields unknown; defaults, optional parts and the address family are tied to what is known of the field on the path." + BASE)
check("M03", "abstract interpretation of package initialisation; comparison of the resulting table with the IANA registry",
  "All entries; stores to the table outside initialisation are looked for in the whole repository." + BASE)
ASM = "abstract interpretation of the assembly source, instruction by instruction, with the inputs divided into parts on which every branch is decided"
check("A01", ASM + "; every access and every stored lane compared with whole-frame saturating addition", "One symbolic frame pair covers all samples; every load and store of all 20 lanes. Covers the amd64 assembly, the only implementation present.")
check("A02", ASM + "; range and sign of the linear form of each result", "All 65536 samples and all 256 bytes, in parts.")
check("A03", AI + " with intervals over the counters and symbolic amplitudes", "Every seed, every state within the invariant (hence any number of draws) and every amplitude but NaN." + BASE)
check("A04", ASM + "; bit-by-bit comparison of each result with the G.711 rules", "All 65536 samples and all 256 bytes, in parts.")
NA = {
 "S12": "A full write-then-parse round trip relates two unbounded string transducers (hand-written writers and an 800-state generated automaton) for all field values; no static argument in reach decides their equality. Its per-field and per-position parts are claimed as S05, S06, S07 and S08.",
 "A05": "The power and amplitude distribution of a pseudo-random generator is a statement about its long-run numeric output; it needs sampling or number theory, not a static analysis of the source.",
 "D17": "Elapsed time between transmissions depends on the scheduler and clock; only the order of timer operations is visible in the source (used by D08).",
}
