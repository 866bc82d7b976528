"""The listed properties (source of properties.jsonl and MANIFEST.json; run tools/gen.py after editing)."""
import re
META = {}
SRC = "src/DLMS_SPODES/"
TESTS = "The repository's tests "


def prop(pid, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    META[pid] = dict(id=pid, title=title, statement=statement,
                     quantifier={"over": over.split(), "text": text},
                     why_tests_cant=why,
                     anchors={"files": [SRC + f for f in files],
                              "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
                              **({"state": [{"name": n, "meaning": m, "where": SRC + w} for n, m, w in state]} if state else {}),
                              **({"observe_at": list(observe)} if observe else {}),
                              "hook_needed": None})
    META[pid]["_note"] = note


FR = "hdlc/frame.py"
prop("P01", "HDLC receive stream: resynchronisation, exact delivery, progress",
     "Feeding the receiver any octet stream in any chunking and draining it delivers exactly the well-formed, checksum-correct frames a standard type-3 HDLC receiver would deliver from that stream, each once, in order, with its own field values. Noise, damaged frames, shared or repeated flags and partial frames never raise, never block progress and never hide a later intact frame; an incomplete frame at the end is kept until its remaining octets arrive.",
     "inputs schedules histories", "every octet stream (valid frames, noise, damaged frames in any order) and every way of cutting it into arrivals",
     TESTS + "parse a handful of complete frames from complete buffers; they never cut a stream, mix noise with frames or check what remains in the buffer.",
     [FR], [("flag hunting and discard of bad candidates", FR + ": Frame.try_from"), ("frame parser", FR + ": Frame.__init__")],
     "Exhaustive on the stream model (all token streams up to the bound, all chunkings); implementation bound by replaying the model's behaviours and random streams, every delivery validated by TLC.",
     ["Frame.try_from on a growing bytearray"], [("receive buffer", "octets received and not yet consumed", FR)])
prop("P02", "HDLC frame octets and fields determine each other",
     "For every destination, source, control octet, information field and segmentation flag whose frame fits the 11-bit length, the built frame has exactly the octets the type-3 layout prescribes (flags, format, addresses, control, header check only with an information field, frame check), and parsing those octets gives every field back and re-encodes identically. A frame too long for the length field is refused with ValueError instead of being built with a corrupt header.",
     "inputs configurations", "all address shapes, control octets, segmentation flags and information lengths 0..65540 (sampled beyond the boundaries)",
     TESTS + "build two or three short frames; no test reaches the length limit or all address/segmentation combinations.",
     [FR], [("frame builder", FR + ": Frame.__init__"), ("length and segmentation", FR + ": Format"), ("octet assembly", FR + ": Frame.content")],
     "TLC recomputes each frame's octets from the layout specification and compares them with the code's.", ["Frame.content", "Frame.try_from"])
prop("P03", "No damaged HDLC frame is delivered",
     "The frame check sequence equals the ISO/IEC 13239 16-bit FCS of the protected octets for every message, in transmission order. A frame damaged by any single-bit error, double-bit error or error burst of up to 16 bits, by a lost or repeated octet or by truncation is never delivered and never raises, and intact frames following it are still delivered.",
     "inputs fault_sequences", "all messages; all single-bit, octet-loss, octet-repeat and truncation faults of the sample frames, sampled double-bit and burst faults",
     TESTS + "compute one checksum; they inject no fault.",
     [FR], [("FCS table and register", FR + ": _CCITT, CRC.__init__"), ("comparison of received checks", FR + ": CRC.from_frame"), ("two checks per frame", FR + ": Frame.__init__")],
     "The model is checked exhaustively for all single and paired bit errors and bursts over a frame family; the code is driven through the same faults and judged by TLC.")
prop("P04", "HDLC addresses: shortest form, self-delimiting, faithful",
     "An address made of an upper and optional lower part (each at most 14 bits) is encoded in 1, 2 or 4 octets with only the last octet's low bit set, in the shortest sufficient form or the longer form asked for, and decodes to the same parts; parts that do not fit or forced lengths too small are refused with ValueError. Reading an address from the head of a buffer consumes exactly its octets and fails when no end bit is found; two addresses are equal exactly when their octets are, and a frame is mine exactly when its destination is my source and its source my destination.",
     "inputs configurations", "all 14-bit upper/lower parts, forced lengths 1, 2, 4 or automatic, all end-bit patterns of up to five octets",
     TESTS + "use a few fixed addresses; boundaries 127/128 and 16383/16384 and malformed end bits are not reached.",
     [FR], [("address encoding", FR + ": Address.__init__"), ("self-delimiting read", FR + ": Address.from_frame"), ("frame matching", FR + ": Frame.is_for_me")],
     "TLC proves the round trip over the address domain (all boundary values; thorough: ~148k pairs) and judges each recorded construction, read and comparison.")
prop("P05", "HDLC control field: kinds and modulo-8 sequence numbers",
     "Every control octet is classified as information, supervisory or unnumbered (and its function and poll bit read) as ISO/IEC 13239 defines, re-encodes to itself, and every named control field is the octet of its function and counters. The successor operations advance N(S) or N(R) modulo 8 leaving the other counter unchanged, so a frame counts as the next of another exactly when its counters are the successors, through any number of wrap-arounds.",
     "inputs histories", "all 256 control octets, all pairs of information frames, all interleavings of send/receive steps up to the model bound",
     TESTS + "check a single control value; wrap-around and all pairs are never compared.",
     [FR], [("classification", FR + ": Control.is_*"), ("counters", FR + ": Control.next_send_sequence, Control.next_receiver_sequence"), ("successor frames", FR + ": Frame.is_next, Frame.is_next_send")],
     "Exhaustive over all octets and octet pairs on the code; counter chains generated by the link model are replayed.")
prop("P06", "Segmented messages are reassembled exactly or refused",
     "Joining a queue of received frames returns the concatenated information of the first information frame and its successive segments up to the final one, skipping foreign, supervisory, unnumbered, repeated and out-of-sequence frames, and leaves the frames after the final segment in the queue. If there is no information frame or the final segment is missing it raises ValueError; it never returns a message with a gap.",
     "inputs histories schedules", "all queues of segments with intrusions, repeats, losses and reorderings, sequence numbers wrapping modulo 8",
     TESTS + "do not call reassembly at all.",
     [FR], [("reassembly", FR + ": Frame.join_info")],
     "Model checked for exactness and no-forgery with loss, repeat and intrusion; the model's queues and random ones are replayed on the code.")
NG = "hdlc/negotiation.py"
prop("P07", "Link negotiation offers and answers agree, atomically",
     "The SNRM information field encodes exactly the current own parameters that differ from the defaults (empty when none), for every valid combination and after any sequence of changes. A well-formed UA field sets the four parameters mirrored (the peer's transmit limits become ours to receive and vice versa; absent ones take the default); a malformed, truncated or out-of-range one raises ValueError and leaves every parameter unchanged.",
     "inputs histories fault_sequences", "all parameter values 32..2030 and 1..7, all field encodings and damages, all sequences of set/offer/answer",
     TESTS + "decode one UA and encode one SNRM with default windows; they never use all four parameters, damaged answers or repeated changes.",
     [NG], [("answer parser", NG + ": Negotiation.set_from_UA"), ("offer encoder", NG + ": Negotiation.SNRM")],
     "Two-station model with a damaging line checked exhaustively; operation sequences replayed, every intermediate state compared by TLC.",
     state=[("parameters", "own transmit/receive information lengths and windows", NG)])
SL = "hdlc/sub_layer.py"
prop("P08", "LLC header: exact header, anything else refused",
     "An APDU to send gets exactly the three-octet command header in front and is otherwise unchanged. A received field is accepted exactly when it starts with an individual or broadcast destination, a command or response source and quality zero; it then yields exactly the octets after the header and re-encodes identically, and anything else, including a cut-short header, raises ValueError.",
     "inputs", "all first three octets (each octet exhaustively, combinations sampled), all APDU lengths",
     TESTS + "parse one header.",
     [SL], [("header check", SL + ": LLC.__init__"), ("octets", SL + ": LLC.content")],
     "Composite model of LLC over segmentation checked exhaustively within bounds; code judged per header.")

CD, UT, PD, BB = "types/common_data_types.py", "types/useful_types.py", "types/cosem_pdu.py", "types/byte_buffer.py"
prop("P09", "BER/A-XDR length octets: every length, exact round trip, no overrun",
     "Every length is written as the standard's shortest length octets and read back as the same length consuming exactly those octets, in each codec (encode_length/get_length_and_pdu of common_data_types and useful_types, cosem_pdu's length helpers, Buffer.put_len/get_length) and cosem_pdu's size helper agrees with what is written. Non-minimal but well-formed length octets read to their value; cut-short length octets and the indefinite form are refused with ValueError (BufferError in cosem_pdu) and never read as some length.",
     "inputs", "all lengths 0..2^64 (boundaries exhaustively, others sampled), all length octet sequences of up to five octets",
     TESTS + "encode one or two short lengths; boundaries 127/128, 255/256, 65535/65536 and damaged length octets are not reached.",
     [CD, UT, PD, BB, "cosem_pdu.py"], [("length writer", CD + ": encode_length"), ("length reader", CD + ": get_length_and_pdu"), ("buffer codec", PD + ": length helpers"), ("in-buffer length", BB + ": Buffer.put_len, Buffer.get_length")],
     "Reader/writer model exhaustive over all octet sequences of the bounded alphabet; every recorded call recomputed by TLC.")
prop("P10", "Octet buffer: reads, writes and windows stay in bounds and agree",
     "In any sequence of operations on byte buffers (write, read, put/get, positioned variants, seek, windows) every operation touches exactly the octets it names, advances the position by exactly the amount it read or wrote, and every window (sub-buffer or memoryview) shows the shared octets as last written. An operation that does not fit in the remaining space is refused with BufferError (IndexError for a bad index) and changes neither contents nor any position.",
     "histories inputs", "all operation sequences to the model bound over small buffers with nested windows, random longer ones",
     TESTS + "make one write and one read; sequences, windows and refusals are not sampled.",
     [BB], [("buffer operations", BB + ": ByteBuffer"), ("positioned access", BB + ": ByteBuffer.read_pos, write_pos, set_pos")],
     "Heap-of-windows model explored exhaustively in bounds; its behaviours are replayed on the code and every state compared by TLC.",
     state=[("position", "next octet to read or write", BB), ("shared octets", "one memory under all windows", BB)])
prop("P11", "cosem_pdu codec: octets and values determine each other",
     "For every COSEM data value of the types it knows (null, boolean, integers, floats, octet string, BCD, enum, date/time types, don't-care, nested arrays and structures) cosem_pdu writes exactly the A-XDR octets of the value, reports that many octets as its size, and reads them back to an equal value leaving the buffer position exactly behind it. The generic Data type picks the type by its tag.",
     "inputs", "all data values with nesting (model: all small values exhaustively; generated: deep and large ones)",
     TESTS + "decode a few scalars; nesting, all tags, sizes beyond 127 octets and trailing octets are not covered together.",
     [PD], [("type codecs", PD + ": get/put/size of each type"), ("tag dispatch", PD + ": Data")],
     "The A-XDR grammar is specified once (Axdr.tla) with decoder and encoder proved inverse by TLC on the bounded domain; every recorded decode/encode judged against it.")
prop("P12", "common_data_types codec: decode, re-encode, copy, remainder",
     "Decoding the octets of any COSEM data value with common_data_types yields the value they encode and leaves exactly the octets behind it; re-encoding, copying and comparing it give the canonical octets and an equal, independent value. This holds for every type, nesting and admissible length form, and containers keep the order and tags of their elements.",
     "inputs", "all data values with nesting, minimal and longer length octets, any trailing octets",
     TESTS + "round-trip selected scalars and one structure; arbitrary nesting, length forms and remainders are not sampled.",
     [CD], [("tag dispatch", CD + ": get_instance_and_pdu_from_value"), ("type codecs", CD + ": encoding/from_contents of each type")],
     "As P11 (one grammar, TLC-proved inverse), decided on the cdt code per recorded decode.")
prop("P13", "Malformed A-XDR data is refused, never misread",
     "Octets that are no complete encoding of a COSEM value (unknown tag, cut-short contents or lengths at any depth, element counts beyond the data, non-UTF-8 text) make each of the three codecs raise ValueError (BufferError where the octet buffer ends in cosem_pdu), never return a value and never raise anything else; octets that are an encoding are never refused.",
     "inputs fault_sequences", "all truncations, tag changes, length changes, octet insertions and deletions of generated values, and arbitrary octet strings",
     TESTS + "contain two or three bad inputs.",
     [CD, UT, PD], [("content size checks", CD + ": from_contents/__init__"), ("element loop", CD + ": Array, Structure"), ("buffer bounds", PD + ": get")],
     "TLC decides for each recorded octet string whether it is an encoding and what must happen; model feeds all octet strings over a small alphabet.")
prop("P14", "Integer cells: range, text, comparison, scaling are exact",
     "An integer type (8 to 64 bits, signed or not, optionally with its own minimum and maximum) accepts a number, decimal text, contents or full encoding exactly when the value is in its range, then shows that value as number, text, octets and hash; anything else is refused with ValueError and changes nothing. Ordering compares values; a scaled value (scaler and units) shows the exact decimal number and converting that number or its text back gives the same octets; clear() gives the smallest non-negative admissible value.",
     "inputs histories", "all integer types, all boundary values, full 64-bit range (sampled), all scalers -128..127 that keep the text finite, sequences of sets",
     TESTS + "set a few small values; 64-bit precision, boundary text and scaling round trips are not covered.",
     [CD], [("numeric types", CD + ": Digital"), ("scaling", CD + ": Digital with unit/scaler")],
     "Big-integer arithmetic is specified in TLA+ and recomputes every recorded value.", state=[("contents", "octets of the value", CD)])
prop("P15", "Setting a value: all or nothing, hooks in order, copies apart",
     "Setting a simple typed cell to acceptable data stores exactly that value, calling a registered pre-set hook with the new and old value before and the post-set hook after; unacceptable data, or a hook that raises, leaves the value as it was and the later hook uncalled. A copy has the same value and is independent of the original and of its hooks; clear() restores the default value of the type.",
     "histories inputs", "all sequences of set/veto/copy/clear over every simple type with good and bad data",
     TESTS + "set values without hooks, failures or copies.",
     [CD], [("set with hooks", CD + ": SimpleDataType.set"), ("copy", CD + ": SimpleDataType.copy, get_copy"), ("clear", CD + ": clear")],
     "Cell model with hook refusals checked exhaustively; every recorded step judged by TLC.", state=[("hooks", "registered pre-/post-set callbacks", CD)])
prop("P16", "Arrays and structures: list semantics, types kept, atomic changes",
     "Arrays behave as the list of their elements under append, insert, remove, pop, clear, set and indexing, structures as the fixed tuple of their fields; their encoding always is the tag, count and element encodings. Elements always have the declared type (and are distinct in a unique array); an operation with an element or encoding that does not fit is refused with ValueError (IndexError for a bad index) and leaves every element unchanged.",
     "histories inputs", "all operation sequences in the model bound, random ones over all element types",
     TESTS + "append once and set once; sequences, refusals and uniqueness are not covered.",
     [CD], [("array operations", CD + ": Array"), ("structure operations", CD + ": Structure")],
     "Container model explored exhaustively; behaviours and random sequences replayed, each state compared by TLC.", state=[("values", "elements", CD)])
prop("P17", "Bit strings: bit order, length and padding under every operation",
     "A bit string of n bits (common_data_types, useful_types) reads and writes bit i as the i-th most significant bit of its octets; setting, inverting, rotating, clearing, and conversion from and to text and octets act on exactly the bits named, keep the length and keep the encoding equal to length octets plus the padded bits. Bad indexes, text other than 0/1 and contents of the wrong size are refused and change nothing.",
     "histories inputs", "all operation sequences on strings of up to 5 bits in the model, random ones up to 260 bits",
     TESTS + "set one bit of an 8-bit string.",
     [CD, UT], [("bit string", CD + ": BitString"), ("bit string of useful_types", UT + ": BitString")],
     "Bit-sequence model explored exhaustively; behaviours replayed, each state compared by TLC.", state=[("contents", "bits and their number", CD)])
prop("P23", "useful_types codec: octets and values determine each other",
     "For every data value, useful_types (the types it knows, the Data choice over them) decodes the A-XDR octets to the value they encode with exactly the octets behind it as remainder, and encoding the value gives the octets back; integers, octet strings, bit strings, text strings and Data choices put together from native values encode to the same octets. An alternative is selected by its tag alone.",
     "inputs", "all values of its types, trailing octets",
     TESTS + "construct a few useful_types values; the Data choice is not round-tripped over its alternatives.",
     [UT], [("type codecs", UT + ": from_contents/contents"), ("Data choice", UT + ": Data, Choice")],
     "As P11, decided on the useful_types code per recorded decode.")
ST = "types/cosem_service_types.py"
prop("P18", "Dates and times: octets, fields, text, Python value, all or refused",
     "A date, time or date-time cell (typed or inside an octet string) holds only contents the standard admits: every field in range or open, a day the named month and year have, a weekday that agrees with a fully named day. Constructing, setting as a whole (octets, text, Python date/time/datetime) or setting one field stores exactly what was given or is refused with ValueError and changes nothing. The fields, the text, the Python counterpart, the time zone and the clock status shown are those of the contents, and text shown reads back to the same contents.",
     "inputs histories", "all field combinations of the model's alphabet with all single-field changes; sampled over all years, leap years, month ends, open fields, deviations and texts",
     TESTS + "make about three dates; open fields, month ends, leap years, weekday agreement and partial texts are not covered.",
     [CD, ST], [("octet checks", CD + ": Date, Time, DateTime validation"), ("field setters", CD + ": set_year … set_hundredths, set_clock_status"), ("text", CD + ": strpdate, strptime, strfdate, strftime"), ("octet-string forms", ST + ": OctetStringDateTime, OctetStringDate, OctetStringTime")],
     "Field, text and Python round trips and refusal of wrong contents checked exhaustively over the model's alphabet; every recorded call judged.",
     state=[("contents", "octets of date and time", CD)])
prop("P19", "Latest matching instant of a date/time pattern is the right one",
     "For a date-time or time with open fields, the latest instant not after a given moment that the pattern matches is found exactly: it matches every specified field (including weekday and the pattern's own time zone), is not after the moment, and no later instant matches. If no instant matches, none is returned.",
     "inputs", "all patterns with open fields and all moments (model: day-by-day walk over the calendar; generated: month ends, leap days, weekdays, zones)",
     "No test calls it.",
     [CD], [("latest day and instant", CD + ": DateTime.get_left_nearest_date, get_left_nearest_datetime"), ("latest time", CD + ": Time/DateTime get_left_nearest_time")],
     "TLC walks the calendar day by day and checks that the calculated answer is the last match seen on the walk; every recorded answer is recomputed by it.")
prop("P20", "Text-like values: text, number and octets stand for the same value",
     "Booleans, octet, visible and UTF-8 strings, BCD, enumerations (with the configured element names) and flags built from text, number or octets hold exactly the octets that input stands for, or the input is refused with ValueError; nothing in between. The text shown is the one prescribed for the octets (hexadecimal, cp1251 or UTF-8, element name or number, bit digits), reading that text back gives the same value, and the numbers, bits and lengths read agree with the octets. An enumeration class offers its declared elements, all of them and only them, whatever it is derived from.",
     "inputs", "all octets and short texts in the model; every library enumeration, random texts, numbers and octets of every text-like type",
     TESTS + "construct a few strings and one enumeration; wrong sizes, other alphabets, unknown numbers and derived enumerations are not covered.",
     [CD, "types/implementations/enums.py"], [("text-like types", CD + ": Boolean, OctetString, VisibleString, Utf8String, Bcd, Enum, FlagMixin"), ("library enumerations", "types/implementations/enums.py"), ("CommSpeed", "types/implementations/enums.py: CommSpeed")],
     "Reading and showing each kind specified in TLA+ (UTF-8 and cp1251 included), round trips checked exhaustively; every recorded construction recomputed by TLC.", state=[("contents", "octets of the value", CD)])
prop("P21", "Floats are IEEE 754: octets, value, rounding and text",
     "Float32 and Float64 cells hold the IEEE 754 octets of the value they were given: a number is rounded to the nearest representable one (ties to even), subnormals, zeros, infinities and overflow included; hexadecimal float text stands for exactly its value. Reading octets gives back the number they encode, and the text shown reads back to the same octets; what is no number or out of range is refused with ValueError.",
     "inputs", "all exponent classes with rounding boundaries in the model (small formats, exhaustive), random octets, numbers and texts of both formats",
     TESTS + "encode two or three numbers; rounding, subnormals, overflow and hexadecimal text are not covered.",
     [CD], [("floats", CD + ": Float, Float32, Float64")],
     "Rounding and decoding specified over big integers; the specification's own round trip and nearest-value theorem is checked exhaustively for small formats, recorded conversions are recomputed.", state=[("contents", "octets of the float", CD)])
prop("P22", "OBIS names: groups, text, order, hash and medium agree",
     "A logical name (both the cell and the service type) is six octets: from text its dotted groups, a missing group A-E being 0 and a missing F 255, a group above 255, other characters or a wrong number of octets being refused with ValueError; its text, groups and hash show the same six octets and reading the text back gives the same name. Names are ordered by their groups from A to F, equal exactly if all six are, and equal ones hash alike. Value group A decides the medium as the OBIS table assigns it, and each medium equals exactly the numbers assigned to it.",
     "inputs", "all group alphabets and pairs in the model; random texts, octets and orders; all 256 media",
     TESTS + "construct a few names; missing groups, overflow, ordering and media are not covered.",
     [ST, UT, "obis/media_id.py", "types/cosemObjectInstanceId.py"], [("names", ST + ": LogicalName"), ("service names", UT + ": CosemObjectInstanceId"), ("media", "obis/media_id.py: MediaId")],
     "Name grammar, order and media table in TLA+; parse/print inverse and strict total order checked exhaustively over an alphabet; every recorded name recomputed.")
prop("P24", "Service octets: descriptors, invoke octet, conformance, code numbers",
     "Attribute and method descriptors are class id, name and signed index in exactly nine octets, and reading nine octets gives those fields (fewer are refused). The invoke octet carries the invoke id in bits 0-3, the service class in bit 6 and the priority in bit 7. The conformance block is 24 bits whose octets, text, number and named bits agree, input of another size being refused; the numbers of services, results, access modes, classes and units are those of the standard.",
     "inputs", "all 256 invoke octets, all single conformance bits, random descriptors and blocks; every code table",
     TESTS + "build one descriptor and one invoke octet.",
     [UT, "types/implementations/bitstrings.py", "enums.py", "pdu_enums.py", "types/cosemClassID.py"], [("descriptors", UT + ": CosemAttributeDescriptor, CosemMethodDescriptor"), ("invoke octet", UT + ": InvokeIdAndPriority"), ("conformance", "types/implementations/bitstrings.py: Conformance"), ("codes", "enums.py, pdu_enums.py, types/cosemClassID.py")],
     "Layouts specified in TLA+ with inverse laws checked by TLC; every recorded octet sequence recomputed.")

# ------------------------------------------------------------------ interface objects
CI = "cosem_interface_classes/"
prop("P25", "Activity calendar: season, week, day, action and rate at any moment",
     "For any calendar and moment, the season in force is the one that began last, its week profile and weekday (or a special day of that date, which takes precedence) give the day profile, and in it the action started last, midnight included, gives the tariff; where nothing applies, AttributeError says so and no other error or neighbour is given. Validation names the first table with repeated keys or a reference to a missing week or day, for the active and the passive calendar, and accepts every consistent one.",
     "inputs configurations", "all calendars over the model's alphabet (season starts with open fields, special days, weeks, days) at every walked moment; random calendars and moments",
     TESTS + "build no calendar; season changes, midnight, special days with open fields and broken references are not covered.",
     [CI + "activity_calendar.py", CI + "special_days_table.py", CD], [("look-ups", CI + "activity_calendar.py: ActivityCalendar.get_current_season … get_current_action"), ("special days", CI + "special_days_table.py: SpecialDaysTable"), ("validation", CI + "activity_calendar.py: ActivityCalendar.validate")],
     "TLC walks time and checks the look-ups against the history of season and action starts; recorded look-ups and validations of random calendars recomputed by TLC.",
     state=[("calendar", "season, week, day tables and special days", CI + "activity_calendar.py")])
prop("P26", "Image transfer: blocks rebuild the image, any order of operations",
     "An image is cut into blocks of the size the server asks for, every block but the last full, whose concatenation is exactly the image; a step goes to the next block until the last and then stops the iteration, and a selected block is the one of that number. Loading the same image again resumes one block before the current one, another image starts at its first block. Without block size or with an empty image loading is refused and nothing changes.",
     "histories inputs", "all histories of block size, load, next, select and clear over small images (model), random histories with images of up to some thousand octets",
     TESTS + "transfer no image.",
     [CI + "image_transfer/ver0.py", CI + "image_transfer/image_transfer_status.py"], [("blocks", CI + "image_transfer/ver0.py: ImageTransfer")],
     "The object's state machine is model checked (the blocks join to the image, a pass gives every block once); recorded histories, TLC's own behaviours among them, replayed step by step.",
     state=[("image transfer", "block size, blocks, current number, identifier", CI + "image_transfer/ver0.py")])
prop("P27", "HDLC setup object: link parameters from the negotiation field",
     "The object takes information-field lengths and windows out of a peer's negotiation field: named parameters get their value, unnamed ones stay, an empty field restores the defaults, and a field that is wrong in its format, length, identifier or value is refused with ValueError and changes nothing. Values set by hand are kept if their type holds them and refused otherwise. What is sent to the peer are exactly the parameters that differ from the defaults, in the prescribed number of octets.",
     "inputs histories", "all short fields over an alphabet and all histories of setting (model), random, valid and damaged fields",
     TESTS + "negotiate nothing.",
     [CI + "iec_hdlc_setup/ver1.py", CI + "iec_hdlc_setup/ver0.py", "hdlc/sub_layer.py"], [("parameters", CI + "iec_hdlc_setup/ver1.py: IECHDLCSetup")],
     "Field grammar as TLA+ operator, all histories of setting checked for the invariants; every recorded step recomputed.",
     state=[("link parameters", "lengths and windows held by the object", CI + "iec_hdlc_setup/ver1.py")])

COL = CI + "collection.py"
prop("P28", "Collection: a map of named objects that keeps its order and its identity",
     "A collection holds at most one object per logical name, in the order the names came: adding puts or replaces the object of the class and version asked (version not given: the class's version in the collection), is refused with ValueError if the name admits no such class and then changes nothing, and removing takes it away (the device name stays). Every look-up (by name, descriptor, class, kind of class, shortcut property, first of names, phases) answers from the current contents, never from earlier ones; a missing object is NoObject. Identification (manufacturer, country, versions, server type) is written once, afterwards only confirmed, a different value being refused.",
     "histories", "all histories of adding, replacing, removing, look-up and identification over a small alphabet (model), random histories with real classes and names, TLC's own behaviours replayed",
     TESTS + "add a few objects to a collection; removal, replacement, refusal and look-ups after changes are not covered.",
     [COL], [("container", COL + ": Collection.add, add_if_missing, try_remove, get_object, get_first, find_version"), ("classes", COL + ": Collection.get_objects_by_class_id, get_class_version, get_n_phases"), ("identification", COL + ": Collection.set_manufacturer … set_spec")],
     "The collection's state machine is model checked (unique names, stable order, refusal changes nothing); every recorded history is replayed step by step by TLC.",
     state=[("collection", "objects by name in order, identification", COL)])
prop("P29", "Class map: every OBIS name admits exactly the classes of its rule",
     "For every specification (DLMS, SPODES 3, KPZ) and logical name, the classes and versions an object of this name can have are those of the rule that covers it: the first of A C D E, A C D, A B C D E and A C rules, and the common set if none does; for manufacturer-specific names only an A B C D E rule counts. A class and version that are not admitted are refused with ValueError, an admitted one gives an object whose class, version, attributes and methods are those of that class, with the log, scaler and status types the name prescribes.",
     "inputs", "an alphabet of names of all media and groups for all specifications (model), every rule's names and random names with every class and version of the library",
     TESTS + "look up three or four names.",
     [COL, "cosem_interface_classes/overview.py"], [("class map", COL + ": func_maps, get_interface_class, get_map"), ("search order", COL + ": get_type"), ("manufacturer names", COL + ": get_type_from_class")],
     "The rules and the search order as TLA+ operators; laws of the map (determinacy, storage, narrowing, no dead rows) checked over the alphabet, every recorded look-up recomputed.")
prop("P30", "Access rights: what an association's object list permits, and to whom",
     "For any object list and any question: an attribute is readable or writable, a method accessible, exactly if the access mode the list gives for it says so, modes that need authentication counting only if the security policy (or the mechanism in use) authenticates; a missing list, name, attribute, method or association is answered with its own error, never with a right. Setting a list adds the objects it names to the collection (the first list only) and one that names an impossible object is refused; the objects and identifiers of an association, asked by number or by client address, are those of the current lists.",
     "histories inputs", "all histories of associations, lists, addresses, mechanisms and removals over a small alphabet with every question at every state (model); random lists, modes of both versions and all policies",
     TESTS + "check the rights of one recorded meter.",
     [CI + "association_ln/ver0.py", CI + "association_ln/ver1.py", CI + "association_ln/ver2.py", COL, "pdu_enums.py"],
     [("rights", CI + "association_ln/ver0.py: AssociationLN.is_readable, is_writable, is_accessible"), ("object list", CI + "association_ln/ver0.py: ObjectListType, ver1.py"), ("modes", "pdu_enums.py: AttributeAccess, MethodAccess, SecurityPolicyVer0/1"), ("by association", COL + ": Collection.filter_by_ass, get_objects_list, get_writable_attr, getAssociationBySAP")],
     "Modes, policies and lists as a TLA+ state machine with laws over all questions (monotone in authentication, never above the mode, agreement of the ways to ask); recorded histories replayed and every answer recomputed.",
     state=[("association", "object list, client address, mechanism of every association", CI + "association_ln/ver0.py")])
prop("P31", "Views: groups, name patterns, selection, sorting and trees of objects",
     "Every logical name belongs to one medium and one group, those of the tables of the Blue Book; a name pattern matches exactly the names whose six groups are in its numbers, lists and ranges, and a malformed one is refused. Selecting keeps, in order, exactly the objects that fit one of the given classes, one of the media, one of the groups and one of the patterns; sorting is stable by the keys in their order; a tree holds every object once under the labels of its levels, and an attribute tree exactly the attributes asked for (without the name, readable, writable), with no empty branch.",
     "inputs", "names around every boundary of the group tables; all lists over seven objects with all keys, sort modes and trees of the model; random collections, patterns and modes",
     TESTS + "sort and arrange one collection and compare no result.",
     [COL, "obis/media_id.py"], [("groups", COL + ": get_relation_group, get_media_id"), ("patterns", COL + ": LNPattern"), ("selection", COL + ": get_filtered"), ("sorting, trees", COL + ": get_sorted, get_object_tree, Collection.get_attr_tree")],
     "Group tables, patterns, selection, sorting and trees as TLA+ operators with laws (partition, idempotence, contiguous branches, monotone filters) checked by TLC; every recorded view recomputed.")
prop("P32", "Interface classes: every attribute and parameter keeps to its schema",
     "An object of any interface class starts with the attributes, methods and initial values of its class, and at any time every attribute is empty or holds a value of the type its class gives; a value of the type (choices keep the type of the first value until cleared) is taken as it is, any other is refused with ValueError and nothing changes, and numbers outside the class are refused with IndexError. Copying values between objects of a class leaves all copied attributes equal. A descriptor is always class, name and the one-octet number asked.",
     "inputs histories", "all classes with all attributes in histories of two or three operations (model); random values of every type, damaged values, every attribute and method number of 77 classes, TLC's own histories replayed",
     TESTS + "create a few objects and set single attributes; most classes are never instantiated.",
     [CI + "cosem_interface_class.py", CI, "types/implementations/", CD, UT],
     [("attributes", CI + "cosem_interface_class.py: set_attr, clear_attr, reset_attribute, copy, encode"), ("schemas", CI + "*.py: A_ELEMENTS, M_ELEMENTS and the types they name"), ("values between collections", COL + ": copy_obj_attr_values_from"), ("descriptors", CI + "cosem_interface_class.py: get_attr_descriptor, get_attribute_descriptor, get_meth_descriptor")],
     "The schemas of all classes and the value rules of their types in TLA+; TLC walks objects of every class and checks the typing invariants; every recorded operation recomputed.",
     state=[("interface object", "a cell per attribute and method parameter, the moment each attribute was read", CI + "cosem_interface_class.py")])
prop("P33", "Keyed tables: seasons, weeks, days, special days, schedule entries",
     "In the tables of an activity calendar, a special-days table and a schedule no element is taken whose key (name, number, index; all of a schedule entry) another element of the table has, however it is put in: appended, inserted or with the whole table set; the index of a special day cannot be changed to another one's. A refusal raises ValueError and leaves every table as it was. A new element asked for without a value gets the lowest vacant key and the first week or day there is, and editing one table never changes another.",
     "histories", "all histories of three operations over small tables (model), random histories with random elements, TLC's own histories replayed, day tables filled until no number is left",
     TESTS + "append nothing to these tables.",
     [CI + "activity_calendar.py", CI + "special_days_table.py", CI + "schedule.py", CD],
     [("keys", CI + "activity_calendar.py: SeasonProfile, WeekProfileTable, DayProfileTable; append_validate, new_element"), ("special days", CI + "special_days_table.py: Entries"), ("schedule", CI + "schedule.py: Entries"), ("arrays", CD + ": Array.append, insert, set")],
     "The tables as a TLA+ state machine, distinct keys and vacant new keys as invariants; every recorded operation recomputed with all tables of the object.",
     state=[("tables", "elements of every table of the object in order", CI + "activity_calendar.py")])
prop("P34", "Put-together types: sequences, optionals, choices, native integers",
     "For every type composed from the building blocks of cosem_pdu and useful_types (integers, booleans, null, octet strings with and without a size, sequences, optional elements, sequences of a type, choices by tag, nested in any way) reading octets gives exactly the value they encode and takes exactly its octets, cut-short octets and unknown tags are refused, and writing any value gives its encoding in the length announced. Named and numbered parts are the parts, defaults and texts (numbers, True/False, tag and value, elements) mean the value they name and every other text is refused; integers of any width are ordered by value, choices are equal exactly when tag and value are, a number out of range or octets of another size are never held.",
     "inputs", "all octet strings of four octets and texts of four letters over twenty types (model); random types three levels deep with random values, damaged octets, prefixes, texts; all integer pairs at their boundaries",
     TESTS + "read one sequence, one optional and one Data value.",
     [PD, UT], [("cosem_pdu parts", PD + ": Simple, Sequence, _Optional, Choice, _SequenceOf"), ("useful_types parts", UT + ": Sequence, Choice, SequenceOptional, ConstSizeMixin, INTEGER, BOOLEAN")],
     "The grammar of types with reader, writer, texts and defaults in TLA+; TLC feeds every short octet string and text to a list of types and checks prefix-freeness and inverse laws; every recorded reading, writing and text of random types recomputed.")
prop("P36", "Device types: the file found for a meter, the collection it makes, its copies",
     "For a maker, type and firmware version the library gives the file of exactly that version or else the latest one of the same branch that is not newer, and reports every other request as unsupported. A type file of format 3 or 4 loads to exactly the objects, classes and attribute values it states, a spoilt node or value spoiling nothing else, and a file saved from a collection states its associations, their objects and their read-only values so that it loads to them again. A copy has all objects with the values of the fullest association's objects and none of the volatile ones, and is independent: whatever is written to the copy never shows in the source or in later copies.",
     "histories", "all files of up to 5 edits over 4 beginnings (model); random trees, files, saved files, copies and writes to the copies (code)",
     TESTS + "load a few shipped files and look at nothing they contain.",
     [CI + "collection.py", CI + "cosem_interface_class.py", "version.py"],
     [("library", "collection.py: get_manufactures_container, get_dir_entry, get, get_collection"), ("file", "collection.py: Collection.from_xml, save_type"), ("copy", "collection.py: Collection.copy; cosem_interface_class.py: COSEMInterfaceClasses.copy")],
     "Tree search, loading, saving and copying as TLA+ operators over the typed objects of Schema/Typed; TLC checks that spoilt nodes do no harm, saved files load to the same, copies are stable; every recorded file, saved file, copy and write is recomputed, value by value.")
prop("P37", "Parameter files: what was set on a meter is saved and comes back",
     "Saving a meter's parameters for an association writes exactly the values that association may write (without security), that are not volatile, not empty and differ from the meter's type, under the meter's identification, and writes no file if there are none. Restoring the file into a new meter of that type, or into the same one, makes every saved value equal and changes no other; a file identified for another maker, type, branch or later firmware is refused before any value changes, and a value that does not fit is passed over. Files of formats 2 and 3 are restored too: format 2 adds the objects it names, format 3 passes over unknown ones, format 4 stops at them.",
     "histories", "three small types with all histories of up to 3 (5) writes (model); random types, meters, values, saved files and hand-made files of all formats (code)",
     TESTS + "save one parameter file and never read it back.",
     [CI + "collection.py"],
     [("saved", "collection.py: Collection.to_xml2, is_writable"), ("restored", "collection.py: Collection.from_xml2, set_*")],
     "The meter as a copy of its type, its parameters as a set computed from values, schema and access rights, and restoring for every format as TLA+ operators; TLC checks that what is saved comes back and nothing else changes; every recorded saved file and restored meter is recomputed.")
prop("P38", "Templates: chosen values as text for the meters of several types",
     "A template written for several meters holds every chosen attribute of every chosen object exactly once, as the text of the value in the first meter that has one, under the identification of all of them and the verified mark; a choice that no meter can fill is refused and no file is left behind. Reading it gives new meters of exactly those types, the same choice of attributes and mark, and sets in each meter every value its text can be read as there, whatever the other meters make of it, and nothing else. A template of another kind, format or of an unknown type is refused.",
     "histories", "two small types with all histories of up to 3 (6) writes and all choices of attributes (model); random types, meters, values, saved templates and hand-made ones of both formats (code)",
     TESTS + "save one template of one device.",
     [CI + "collection.py"],
     [("saved", "collection.py: to_xml4"), ("read", "collection.py: from_xml4, Collection.from_xml3, get_collection")],
     "Choice, source, text trees and reading as TLA+ operators over the meters of module Library; TLC checks that what is saved is complete and comes back; every recorded saved and read template is recomputed.")
prop("P39", "Linked attributes: values, limits and secrets follow what they depend on",
     "The numbers of a register, extended register or demand register are shown, reported, entered and prepared for entry by the power of ten and in the unit of its scaler, whichever of value and scaler was written first and however often each is rewritten; rewriting the scaler never changes a number, and both values of a demand register are of one type. The limits of a limiter take the type, a zero and the scaler of the value it watches, the thresholds of a register monitor its type. Rows of an arbitrator's permissions are as wide as its actions; an association has no secret before its mechanism is known, and then one of that mechanism's kind.",
     "histories", "all histories of 4 (6) writes over small sets of numbers, texts and scalers (model); simulated and random histories over all integer types, powers of -6..6 and units (code)",
     TESTS + "never link two attributes of an object.",
     [CI + "register.py", CI + "extended_register.py", CI + "demand_register/ver0.py", CI + "limiter.py", CI + "register_monitor.py", CI + "arbitrator.py", CI + "association_ln/ver0.py", CI + "cosem_interface_class.py", CD],
     [("registers", "register.py, demand_register/ver0.py: __set_value_data_type, __set_value_scaler_unit; common_data_types.py: Digital"), ("limits", "limiter.py: __set_threshold_scaler_unit; register_monitor.py: __set_threshold_type"), ("made values", "cosem_interface_class.py: encode, set_attr"), ("secret", "association_ln/ver0.py: __init_secret, __check_mechanism_id_existing")],
     "Register, limiter, monitor, permissions and secret as one TLA+ state machine over module Num; TLC checks that reading and writing agree in every order; recorded histories of the real objects are judged step by step.")
prop("P40", "Readouts: messages, events, packed numbers, reports, limited values",
     "Every marked word of a message is translated (an unknown one stays as it is) and a doubled dollar is a dollar; every event number, set of flags (all bits of the value), seal state and signal level reads as its own text; the report of an object shows every element of every attribute asked for, in order, under its name. The channel and the interface of a port are read and chosen independently of each other. Parameters with limits (measurement period, server address, specification version, IP address) take exactly the values in their limits and keep the old one when a value is refused, and a meter whose firmware is newer than its description is refused.",
     "histories", "all histories of 3 (4) choices, all messages of 6 (9) letters, all pairs of small versions (model); all octets, simulated and random histories, messages, and values of every class of object (code)",
     TESTS + "never read a message, an event or a report.",
     ["config_parser.py", CI + "events.py", CI + "reports.py", CI + "implementations/data.py", CI + "gsm_diagnostic/ver0.py", COL],
     [("messages", "config_parser.py: get_message"), ("events", "events.py: Events, FlagEvents; implementations/data.py"), ("packed", "implementations/data.py: ChannelNumberValue, SealUnsigned; gsm_diagnostic/ver0.py: SignalQuality"), ("reports", "reports.py: get_obj_report"), ("limits", "implementations/data.py: SPODES3MeasurementPeriodValue, SPODES3SPODESVersionValue, ActiveFirmwareId; long_unsigneds.py: ServerSAP; double_long_usingneds.py: IPAddress; collection.py: set_server_ver")],
     "Message grammar, event and flag texts, packing, limits and the layout of reports in TLA+ as functions and a small state machine; TLC checks their laws (independence, round trips, no two readings alike, no line lost); every recorded text and history of the code is recomputed.")
prop("P41", "Names reach what they name: attributes, methods, elements, columns, actions",
     "Every name of an attribute or method of every class reaches that attribute or method of the object and no other, whatever was put there or taken away last, as its number, iteration and enumeration do; numbers outside are refused. Every element of every structure of every class is reached by its own name. The column of a captured attribute, element or column of another profile has exactly the names and the type of what is captured; a script is shown as the names of its actions in turn or refused, and the readout of a display takes exactly rows of one flag for each object captured now.",
     "histories", "all histories of 2 (3) puts and clears of every class (model); all names, numbers and structures of 77 classes, simulated and random histories, random collections, scripts and displays (code)",
     TESTS + "read an object by the names of its parts.",
     [CI + "cosem_interface_class.py", CI + "limiter.py", CI + "profile_generic/ver1.py", "types/common_data_types.py: Structure", COL, CI + "implementations/profile_generic.py"],
     [("names", "accessors of the interface classes; cosem_interface_class.py: get_attr, get_meth, set_attr_force, clear_attr, __getitem__, __iter__, get_index_with_attributes, it_index_with_meth"), ("elements", "common_data_types.py: Structure.get_el0..9, __init_subclass__"), ("columns", "collection.py: get_name_and_type"), ("scripts", "collection.py: get_script_names"), ("display", "implementations/profile_generic.py: SPODES3DisplayReadout")],
     "Names of the attributes, methods and structure elements of all classes, aliases, columns, scripts and rows in TLA+; TLC checks that a name reaches one part, that what is read by it is what was put last, and that a column of a column is the column; identity and octets of everything read by name in the code are compared.")
prop("P42", "Typing by hand: each letter is checked, nothing typed is lost; secrets",
     "A letter typed into a number, a number with a power of ten, a float, bits, a text, octets, a date, a time, a name or the text of a choice goes in exactly when the line is then a value or a beginning of one, and is refused with ValueError otherwise; the line holds the letters typed, in order, and only separators and spaces come by themselves, the cursor staying behind the letter typed. Typing never changes the value; a line that is a value can be set and gives that value. A secret is shown as octets, letters or stars, one way for all secrets, and what is typed is read that way.",
     "histories", "all lines of 5 (7) letters of small alphabets for 9 (11) kinds (model); simulated and random lines with a moving cursor over all integer types, kinds and the texts of units (code)",
     TESTS + "never check a line being typed.",
     ["types/common_data_types.py: validate_from", "types/cosem_service_types.py: LogicalName", CI + "association_ln/ver0.py: LLCSecret"],
     [("lines", "common_data_types.py: validate_from of Digital, Float, BitString, OctetString, Enum, __DateTime; SimpleDataType"), ("names", "cosem_service_types.py: LogicalName.validate_from"), ("secrets", "association_ln/ver0.py: LLCSecret.__str__, from_str, representation")],
     "The line and its cursor after each letter in TLA+ over the readers of numbers, dates and names; TLC checks that no letter is lost, doubled or moved, that each line is a value or one step from it, and that checking again changes nothing; lines recorded from the code are judged by it.")
prop("P35", "Versions: text, order, nearest of a list",
     "A version text of two decimal parts, or of three with any text behind the patch, gives exactly those numbers and that text; every other text gives the zero version and nothing raises; what is shown reads as the same version. Versions are ordered by major, minor, patch, a missing patch standing for any patch of its branch, and are equal, with equal hashes, exactly when all parts are; the nearest of a list is of the same major and minor, not later than the version asked for and the latest such one, or none.",
     "inputs", "all texts of six letters over digits, point, letter and space (model; five letters on the code), all pairs and triples of small versions, random lists",
     TESTS + "compare a handful of versions.",
     ["version.py"], [("text", "version.py: from_str, __str__, report"), ("order", "version.py: __eq__, __gt__, __ge__, __hash__"), ("choice", "version.py: select_nearest")],
     "Parser, partial order and choice in TLA+, order laws and existence/uniqueness of the nearest checked by TLC; every recorded text, pair and list recomputed.")
