SIM = 'path-sensitive abstract interpretation over Go SSA (value numbering + difference bounds), per entry point, compared with a specification'
prop('C01', 'Level gating delivers each enabled event exactly once',
 'A log statement whose level is below the configured minimum level delivers nothing to any sink; one at or above it (and every Warn/Error/Fatal, and every Call variant given a non-nil error, which is raised to WARN, or ERROR for access logs) delivers exactly one event carrying that level, the given error, properties and context, and a current timestamp. When an aggregator handles the event it is aggregated exactly once and is additionally written if and only if its level is at least the minimum call level. SetMinLevel, ShouldLog and the timers agree with this gating.',
 ['inputs','configurations'], 'all entry points (package functions and Context methods), levels, minimum levels, errors, and both sink configurations',
 'The tests log a handful of fixed events at one minimum level and check no counts; the gate of each of the 20 entry points is a separate copy of the code.',
 ['countlog/countlog.go','countlog/context.go','countlog/root.go','countlog/timer.go'],
 [('level gate in each entry point','countlog/countlog.go'),('root handlers','countlog/root.go')],
 SIM, 'Every path of every entry point, loops abstracted; sinks are opaque. Trusts go/ssa and the memory model of the simulator; concurrent reconfiguration is excluded.')
prop('C02', 'Call variants return an error exactly when given one',
 'TraceCall, DebugCall, InfoCall and LogAccess return nil if and only if the error they were given is nil, whatever the minimum level is and whatever the sinks do. A returned error reads "<formatted event>: <original error text>".',
 ['inputs','configurations','fault_sequences'], 'all errors, properties, levels, and sinks that panic',
 'Tests call a Call variant with one error and one level; they do not vary the level or make sinks fail.',
 ['countlog/countlog.go','countlog/context.go'], [('log','countlog/countlog.go')],
 SIM, 'Every path with a panic fork at each sink call. The exact text is compared only where the text construction can be decomposed.')
prop('C03', 'A panicking sink never breaks the code that logs',
 'No log statement panics because an event sink, or a handler a sink returned, panics: the panic is contained, reported, and the log statement returns normally. This holds for the first event of a log site, for later ones, and for the handlers installed after a previous panic.',
 ['fault_sequences','histories'], 'all entry points and every sequence of panics in HandlerOf / Handle of the writer and the aggregator',
 'One test logs with a sink that panics once; nested failures (panic while recovering, handlers stored after a panic) are not sampled.',
 ['countlog/root.go','countlog/countlog.go'], [('deferred recover in root handlers','countlog/root.go')],
 'panic-path analysis: panic fork at every sink call, unwinding through deferred calls, fixpoint over the kinds of handlers stored in the cache',
 'Every path; loglog.Error is assumed not to panic. Runtime panics inside opaque calls other than sink calls are not modelled.')
prop('C04', 'The reported source location is the line that logs',
 'The file, line and function handed to sinks for a log site are those of the statement in the user code that called the logging function, for every logging function and method, both for the first event of a site and for sites that are rebuilt after a sink panicked.',
 ['inputs','programs'], 'all entry points and all call chains from an entry point to the location lookup',
 'The frame offset is a constant that must match every call chain; no test checks the location of each of the 20 entry points.',
 ['countlog/countlog.go','countlog/context.go','countlog/root.go'], [('runtime.Caller offset','countlog/countlog.go')],
 'call-chain analysis: the frame index asked for at every runtime.Caller is compared with the depth of the inlined call stack',
 'Every call chain from every entry point, including handlers stored in the cache. Assumes runtime.Caller counts source frames.')

prop('C05', 'Each event reaches its output as one complete write',
 'Handling an event with an EventWriter makes exactly one Write call, to the configured writer, whose bytes are exactly what the formatter appended for that event (nothing before, nothing after, nothing of an earlier event); msgfmt.Printf / Fprintf / Println / Fprintln likewise make one write of the formatted text to stdout / the given writer and return its result. Buffers are taken empty from the pool, are returned to it at most once and never before the write, and are not used after they were returned. A failed write of an event is reported.',
 ['inputs','schedules','histories'], 'all events, formatters, writers, write errors, and interleavings of goroutines sharing the pool',
 'A stale or shared pooled buffer shows only under concurrent use or after an unusual earlier message; the tests write one message at a time.',
 ['countlog/output/writer.go','msgfmt/msgfmt.go'], [('EventWriter handler','countlog/output/writer.go'),('Printf family','msgfmt/msgfmt.go')],
 SIM, 'Every path. Formatters are opaque functions that may append to the space they are given (C23 and C25 to C27) and keep no reference to it.')
prop('C06', 'The async writer loses no accepted message',
 'Every message accepted by an asynchronous writer is written to the underlying writer exactly once, unchanged even if the caller reuses its slice after Write returned, in the order of acceptance, by a single consumer. In non-blocking mode a message is either accepted or, if the queue is full, reported once to the drop callback. Write errors are reported and do not stop the consumer. After the stop signal the consumer keeps draining until the queue is empty or the grace period ended; Close stops the consumer and waits for it before it closes the underlying writer, and returns the error of closing it.',
 ['schedules','histories','fault_sequences'], 'all interleavings of writers, consumer and Close, all messages and write errors',
 'The losing interleavings (stop signal racing with queued messages, a caller reusing its slice) need precise timing; the tests write a message and sleep.',
 ['countlog/output/async/async.go'], [('NewAsyncWriter','countlog/output/async/async.go')],
 SIM, 'Every path of Write, the consumer and Close with loops abstracted; channel operations are treated as the interleaving points. Liveness of the scheduler is assumed.')
prop('C07', 'The executor counts every goroutine until it ends',
 'UnboundedExecutor.Go starts the handler exactly once in a new goroutine with the context of the executor; from before it starts until it ends - normally or by panic - it is counted as running, and it is uncounted exactly once. A panic in a handler never escapes: it is reported to HandlePanic, except the stop signal. StopAndWait cancels the handlers first and returns only when no handler is counted any more or its own context is done. The counters are only touched under the mutex.',
 ['schedules','fault_sequences'], 'all handlers, panics, and interleavings of Go, handler exit and StopAndWait',
 'A handler that is counted too late, or is not uncounted after a panic, makes StopAndWait return early or never, but only in specific schedules.',
 ['concurrent/unbounded_executor.go','concurrent/executor.go'], [('Go and StopAndWait','concurrent/unbounded_executor.go')],
 'path-sensitive dataflow over SSA with lock sets and panic paths', 'Every path including panics of the handler and of the reporting callbacks; interleavings are covered through the lock discipline.')
prop('C08', 'Goroutine-local state stays with its goroutine',
 'A value set with gls.Set in a goroutine is seen by Get in that goroutine only. The function returned by WithGls runs f exactly once with a private map that holds every entry of the goroutine that called WithGls (values with Copy are copied), for each invocation separately; WithEmptyGls gives an empty private map. On return and on panic of f the state of that goroutine is removed. Two goroutines never share a map, and every access to the shared tables holds the lock of that table.',
 ['schedules','fault_sequences','histories'], 'all goroutine ids, keys, values, nesting and interleavings',
 'Leaks and sharing between goroutines need id collisions on a shard, reuse of the returned function or a panic in f; the tests use one goroutine.',
 ['gls/gls.go','gls/goid.go'], [('sharded global tables','gls/gls.go')],
 SIM, 'Every path with symbolic goroutine ids; GoID itself (assembly / runtime offset) is trusted.')
prop('C10', 'Aggregated counters neither lose nor double count',
 'For a log site with counter aggregation every handled event increments by one exactly one counter: the one of the dimension values the event carries, in the map and under the lock of one shard. Events with equal dimension values share a counter and others do not; the stored dimension never refers to storage of the event. Every second, until stopped, the exporter visits every shard under its lock and hands every counter to the collector once, with its value since the previous export, the event name, the export time and its dimension, and resets it. Locks are released on every exit, including panics.',
 ['inputs','schedules','histories'], 'all events, dimensions (number and values), goroutines and export moments',
 'Lost or double counts need an export concurrent with events or particular dimension counts; there is no test that counts.',
 ['countlog/stats/window.go','countlog/stats/counter.go','countlog/stats/state.go','countlog/stats/stats.go'],
 [('sharded windows','countlog/stats/window.go'),('countEvent','countlog/stats/counter.go')],
 SIM + ', with lock sets', 'Every path with loops abstracted. The hand-made interface headers are modelled as (type, data) pairs; the size of the batch allocation in Export is not checked (non-linear).')
prop('C11', 'A rotated log file never grows beyond its maximum size',
 'lumberjack.Logger never writes data that would take the log file beyond MaxSize megabytes (100 when MaxSize is 0; a megabyte is 1024*1024 bytes): it rotates first, and rejects data that is longer than the maximum. The size the logger tracks is always the size of the file it has open: 0 after a new file was created, the existing size when a file is continued, and it grows by exactly the number of bytes written, also for short or failed writes.',
 ['inputs','histories','fault_sequences'], 'all sequences of Write, Rotate, Close, reopening, file sizes and I/O errors',
 'The tests of the package do not even compile here; a wrong size after reopening or after a failed write shows only after megabytes of data.',
 ['countlog/output/lumberjack/lumberjack.go'], [('Write, openNew, openExistingOrNew','countlog/output/lumberjack/lumberjack.go')],
 SIM, 'Every path of the exported methods from an arbitrary logger state whose tracked size is right (induction over calls). Assumes the documented single process; Stat and the following open see the same file.')
prop('C12', 'Log rotation and compression never lose written data',
 'Logger.Write writes the data once, unchanged and after everything written before, to the open log file and returns the result of that write, or returns an error and 0. An existing log file is only ever appended to or moved aside within its directory: it is truncated only when it does not exist or was successfully renamed, and it is never removed by Write, Rotate or Close. The file is closed before it is replaced, exactly once, and a closed file is never kept as the open one. Compressing a backup removes the original only after everything was copied and the compressed file was completely written and closed without error; the compressed file is removed on failure only, never together with the original.',
 ['inputs','fault_sequences','histories'], 'all sequences of Write, Rotate and Close, states of the file system and errors of every file operation',
 'Loss needs a failing rename, copy, flush or close; no test injects one, and the tests of the package do not compile.',
 ['countlog/output/lumberjack/lumberjack.go','countlog/output/lumberjack/chown_linux.go'], [('openNew, openExistingOrNew, rotate','countlog/output/lumberjack/lumberjack.go'),('compressLogFile','countlog/output/lumberjack/lumberjack.go')],
 'typestate analysis of files over path-sensitive abstract interpretation of Go SSA with every error outcome', 'Every path and every error outcome of the os calls. A backup that already has the new name is overwritten by the rename: known finding.')
prop('C13', 'Retention removes exactly the backups it must',
 'After every rotation the retention pass removes a backup if and only if MaxBackups > 0 and at least MaxBackups newer distinct backups exist (a log file and its .gz copy count as one), or MaxAge > 0 and the timestamp in its name is more than MaxAge * 24 hours before now; one failing removal does not stop the others. Only regular files in the directory of the log file whose name is exactly name-without-extension + "-" + a timestamp in BackupTimeFormat (default 2006-01-02T15-04-05.000) + extension, optionally + ".gz", are backups, and they are ordered by that timestamp, newest first. Rotation gives exactly such names, in UTC unless LocalTime is set, and reading them back uses the same format and zone. With both limits 0 nothing is removed. With Compress, backups are compressed to name + ".gz"; without it none is.',
 ['inputs','configurations','histories'], 'all directory contents, configurations, current times, and numbers of backups',
 'Boundaries (equal counts, a file and its compressed copy, foreign files, zones) are many; the tests of the package do not compile.',
 ['countlog/output/lumberjack/lumberjack.go'], [('millRunOnce','countlog/output/lumberjack/lumberjack.go'),('oldLogFiles / timeFromName / backupName','countlog/output/lumberjack/lumberjack.go')],
 SIM + '; loops are entered in an arbitrary iteration, slices are followed through an append/phi flow graph', 'Every path with loops in an arbitrary iteration, so any number of files. Decompositions the rules do not know (for example another counting scheme) are reported as notes, not as violations.')
prop('C17', 'Integers are written as their exact decimal text',
 'jsonfmt.WriteInt8/16/32/64 and WriteUint8/16/32/64 append exactly the decimal representation of the given value - no leading zeros, "-" for negative values only, all digits in order, including the minimum and maximum values of each type - to the given space and return it; the bytes already in the space are kept.',
 ['inputs'], 'every value of every integer width (2^64 values for the widest)',
 'The tests write a handful of values per width; the writers split values in groups of three digits in separate branches per number of groups, and wrong digits need a value with a particular number of digits.',
 ['msgfmt/jsonfmt/encoder_int.go'], [('WriteUint64 and the digits table','msgfmt/jsonfmt/encoder_int.go')],
 'digit-range abstract domain over the SSA paths of each writer: every appended byte is shown to be a particular decimal digit of the argument, the digit table is read from the initialiser',
 'Every path of the eight writers, every value. Code whose arithmetic the digit domain does not know is reported as a note unless a particular value is shown, from the terms of the path, to give wrong text.')
prop('C15', 'Integers are read exactly or reported as out of range',
 'read.Uint64 reads the longest run of ASCII digits at the start of what is left of the parse.Source, however its reader splits it, and gives the number they are in decimal (0 if there are none); the byte after them is not consumed. If the number does not fit a uint64 an error other than io.EOF is reported on the source instead of giving another number. Int, Int32 and Int64 read an optional - followed by such digits; every value from the smallest to the largest of the type is read exactly and without error, everything outside is reported as an error. Digits that end with the input leave the end of the input (io.EOF, or the error of the reader) as the error of the source; digits followed by another byte leave none. Int, Int32 and Int64 without any input report an error other than io.EOF.',
 ['inputs','histories'], 'all digits, lengths and values, all ways to split the input into reads',
 'The tests read a few small numbers and two at the border of uint64; the borders of the signed types, other overflowing numbers and overflow in a later read are not among them.',
 ['parse/read/int.go','parse/parse.go'],
 [('Uint64','parse/read/int.go'),('Int64','parse/read/int.go'),('Int32','parse/read/int.go')],
 SIM + ' over symbolic bytes and an arbitrary accumulated value, comparing conditions and result terms with the decimal number', 'Up to 4 bytes, each any of the 256 values, exactly; longer numbers by one arbitrary turn of the accumulation, whose conditions and new value are evaluated for all bytes at the values next to every power of two and ten, multiple of 2^64/10, 2^64/9 and 2^64/8, and every constant of the conditions. Int is examined for a 64 bit platform.')
prop('C24', 'Read and skip take exactly the longest run that matches',
 'read.AnyExcept1 and AnyExcept2 append to the given slice all bytes up to the first stop byte, skip.Space skips all of the bytes tab, newline, vertical tab, form feed, carriage return and space, read.UnicodeRange(s) and skip.UnicodeRange(s) and UnicodeSpace all runes that are in the table (in one of the included tables if there are any and in none of the excluded ones; white space), however the reader splits the input; they stop before the first byte (rune) that does not match, which is not consumed, or at the end of the input, and consume whole runes only. The read functions give the given slice with all that was consumed appended, as a copy (not a part of the buffer of the source); the skip functions give the number of bytes skipped. The source has an error afterwards only if the input ended.',
 ['inputs','histories'], 'all inputs, tables and stop bytes, all ways to split the input into reads',
 'There is one test with one string; runs that continue in the next read, runes that are split, combinations of included and excluded tables and counts in bytes are untested.',
 ['parse/read/any.go','parse/read/range.go','parse/skip/range.go','parse/skip/space.go'],
 [('AnyExcept1','parse/read/any.go'),('AnyExcept2','parse/read/any.go'),('UnicodeRanges','parse/read/range.go'),('Space','parse/skip/space.go')],
 SIM + ' over symbolic bytes and runes, comparing what is consumed with the run the conditions imply', 'Inputs of up to 4 bytes or 3 runes of 1 to 4 bytes in some 20 ways to split them; tables are abstract (any), up to two included and two excluded ones; stop bytes of four kinds. Assumes that utf8.DecodeRune, unicode.Is and unicode.IsSpace work.')
prop('C16', 'Escaped strings decode to exactly the bytes that were given',
 'jsonfmt.WriteString appends one double-quoted JSON string that decodes to exactly the given string: every byte is written once and in order, bytes below 0x20, the quote and the backslash only as JSON escapes, all others unchanged. jsonfmt.WriteBytes does the same for a byte slice, except that bytes that are not printable ASCII are written as the text \\xHH (two hex digits, with the backslash escaped: "\\\\xHH"); \\n, \\r and \\t may be JSON escapes. In messages (msgfmt) a []byte value is written without quotes, with \\xHH or \\n, \\r, \\t, \\\\ and \\" escapes for control bytes, bytes above 0x7f, the backslash and "|". The bytes already in the space are kept.',
 ['inputs'], 'all strings and byte slices: every combination, order and position of bytes that need escaping',
 'The writers copy runs of safe bytes lazily around escaped ones; a lost or doubled byte needs a particular combination (an escape in last position, two escapes in a row, a high byte after a control byte), which the handful of samples miss.',
 ['msgfmt/jsonfmt/encoder_str.go','msgfmt/jsonfmt/encoder_bytes.go','msgfmt/formatter_bytes.go'],
 [('writeStringSlowPath','msgfmt/jsonfmt/encoder_str.go'),('writeBytesSlowPath','msgfmt/jsonfmt/encoder_bytes.go'),('writeBytes','msgfmt/formatter_bytes.go')],
 'transducer analysis: loop invariants found by elimination (difference bounds, ranges of copy-safe bytes, how much of the input the output stands for), each loop segment checked against the decoder for every byte value its path condition admits',
 'Every path of the writers with loops abstracted, so every input length. Loops whose progress is not a linear function of an index are reported as notes.')
prop('C21', 'Closing resources closes each one and reports every failure',
 'plz.CloseAll closes every resource of the list exactly once, in order, no matter how many of them fail; plz.Close closes its resource once and returns its error. Every failure is logged as an error (countlog.Error) with the error among its properties. CloseAll returns nil if and only if every Close succeeded, otherwise a MultiError that holds exactly the non-nil errors in order. MergeErrors does the same for a list of errors: nil if all of them are nil, otherwise a MultiError of exactly the non-nil ones in order, and it leaves the list it was given unchanged. WrapCloser(f) calls f once per Close, returns its error, and does not call it before.',
 ['inputs','fault_sequences'], 'all lists of resources (any length) and every combination of failures',
 'There is no test of these functions; a resource left open after a failure, or a non-nil error made of nothing, needs particular combinations of failures.',
 ['closer.go'], [('CloseAll, MergeErrors','closer.go')],
 SIM + '; lists of up to four elements are followed exactly, longer ones through an arbitrary iteration of each loop', 'Every combination of outcomes for up to four resources; for any length: the loop starts at the first, moves by one and is left only at the end, and the errors collected are returned whole. A panicking Close is outside the property.')
prop('C18', 'Every value is encoded by the encoder of its own type',
 'jsonfmt (EncoderOf, EncoderOfObject, MarshalToString and API.EncoderOf/EncoderOfObject of any configuration) encodes a value as its type calls for: booleans as true/false; integers with the full width and signedness of their kind as decimal text; strings as escaped JSON strings; []byte as escaped text; errors by the escaped text of Error(), other json.Marshalers by what MarshalJSON returned or, if it failed, the escaped text of its error - whatever kind the implementing type has; nil objects, nil pointers, nil interfaces (also nil pointers with Error or MarshalJSON methods) as null; pointers as what they point to; interfaces as the value they hold, with the same configuration; types that have no JSON form as a string with a message. An encoder kept in a cache is kept under the type it was made for, is the one that was returned, and all encoders of a cache expect the same (the address of a value, the data word of an interface, or the address of a map key). The value given to an encoder is the one of the type it was made for. Making the encoder of a type that contains itself through pointers, slices or maps ends. Encoding adds to the space given and does not panic.',
 ['inputs','configurations','histories'], 'all types (every kind, with and without Error or MarshalJSON methods, stored directly in interfaces or not) and all their values; first and later uses of a type',
 'The tests encode a few values per kind once; a wrong width needs a large value, a wrong calling convention a type stored directly in an interface or a second use, a wrong implementer test a particular kind with methods.',
 ['msgfmt/jsonfmt/encoder.go','msgfmt/jsonfmt/encoder_dynamic.go','msgfmt/jsonfmt/encoder_pointer.go','msgfmt/jsonfmt/encoder_error.go','msgfmt/jsonfmt/encoder_json_marshaler.go'],
 [('encoderOf: the encoder of a type','msgfmt/jsonfmt/encoder.go'),('frozenConfig.EncoderOf/EncoderOfObject: caches','msgfmt/jsonfmt/encoder.go'),('Encode of each encoder','msgfmt/jsonfmt/encoder_pointer.go')],
 SIM + ', in two phases: making the encoder of a type of fixed kind, then its Encode from the state that left behind', 'Every path per kind. Assumes that reflect2 describes types as reflect does. The text of floating point numbers is not decided (that they are read as their kind is). Configurations with extensions are outside.')
prop('C23', 'Slices, arrays, maps and structs are encoded whole as JSON lists and objects',
 'jsonfmt encodes a slice or array as "[" + the encodings of its elements 0..n-1 in order, separated by "," + "]" ([] without elements, also for nil slices); a struct as "{" + name:value for each field in order, separated by "," + "}"; a map as "{" + key:value for each entry the iterator gives, separated by "," + "}", a nil map as null. No element, field or entry is left out or written twice, whatever their number. A field is left out exactly if it is not exported (and unexported fields are not included by the configuration), its type is a function or channel, or the name in its json tag is "-"; its name is the name in the tag (before the first comma) or, without one, the name of the field, escaped. Each element, field or entry is encoded by the encoder of its own type from its own address. Map keys are JSON strings: keys that encode as strings stand as they are, numbers and booleans are quoted, other encodings become the text of a string, the nil key is "null", a key in an interface is encoded as a key of the type it holds.',
 ['inputs','configurations'], 'all numbers of elements, fields and entries; all combinations of exported, tagged and skipped fields; all kinds of keys',
 'The tests encode one or two elements or fields; a misplaced comma or a dropped element needs a particular position, count or combination of skipped fields.',
 ['msgfmt/jsonfmt/encoder.go','msgfmt/jsonfmt/encoder_slice.go','msgfmt/jsonfmt/encoder_array.go','msgfmt/jsonfmt/encoder_stuct.go','msgfmt/jsonfmt/encoder_map.go'],
 [('encoderOfStruct, getFieldName','msgfmt/jsonfmt/encoder.go'),('sliceEncoder, arrayEncoder, structEncoder, mapEncoder','msgfmt/jsonfmt/encoder_slice.go'),('encoders of map keys','msgfmt/jsonfmt/encoder_map.go')],
 SIM + ', in two phases as for C18; 0 to 3 elements are followed exactly, any number through an arbitrary iteration of each loop', 'Every path per kind and number of elements up to 3 (every combination of skipped fields); beyond that the step of an arbitrary iteration. Assumes that reflect2 gives elements, fields and entries as reflect does, and C16 for WriteString.')
prop('C25', 'A JSON event is one line of JSON with everything the event has',
 'The formatter of countlog/output/json turns every event into one line: a JSON object that starts with "event" (the name of the site) and holds every property of the event itself - whatever the first event of the site had - once, in order, under its escaped name and with the value as jsonfmt encodes it, "timestamp" (nanoseconds since 1970 of the time of the event) and "location" (of the site), and ends with a line break. All text is escaped, whatever names and values are. The line is appended to the space given; what was in it stays.',
 ['inputs','histories'], 'all sites and events: any number, names and types of properties, any later event of a site',
 'The tests format one event per site with two properties, and fail already; wrong commas need no or many properties, unescaped names particular characters, a wrong value a later event with other properties.',
 ['countlog/output/json/json.go'], [('FormatterOf, Format','countlog/output/json/json.go')],
 SIM + '; the appended text is parsed as JSON over literal and symbolic pieces', '0, 1, 2, 3, 5 properties, and numbers around every integer constant in the code, each followed exactly. Assumes C16, C17 and C18 for the functions of jsonfmt; duplicate names (a property named "event") are not excluded.')
prop('C27', 'Text formats show everything an event has',
 'The formatters of countlog/output/hrf, compact and printf turn every event into text that ends with a line break. hrf and compact show the level of the event by its name (spi.LevelName and ColoredLevelName contain TRACE, DEBUG, INFO, WARN, ERROR or FATAL for every level, also the levels of calls); the message: for sites named "event!..." or "callee!..." what follows that prefix, for others the name as a message format with the properties of this event; the text of its error, if it has one that is not empty; every property of this event - whatever the first event of the site had - once and in order, its name followed by its value. compact shows the time and the location always; hrf the time if ShowTimestamp is set, the location from LevelWarn on, and the properties of the log context of the event before its own. printf formats the layout followed by a line break with the values message, timestamp, level, event, func, file and line of this event and its site. The text is appended to the space given; what was in it stays.',
 ['inputs','configurations','histories'], 'all sites and events: any level, error, context, number, names and types of properties, any later event of a site',
 'The tests format one event per site; those of printf do not compile. A missing part needs a particular level, kind of name, context or a later event.',
 ['countlog/output/hrf/hrf.go','countlog/output/hrf/prop.go','countlog/output/hrf/ctx.go','countlog/output/compact/compact.go','countlog/output/printf/printf.go','countlog/spi/color.go'],
 [('hrf.Format.FormatterOf','countlog/output/hrf/hrf.go'),('compact.Format.FormatterOf','countlog/output/compact/compact.go'),('printf.Format.FormatterOf','countlog/output/printf/printf.go'),('level names','countlog/spi/color.go')],
 SIM + '; the appended pieces are compared with the parts of the event', '0, 1, 2, 3, 5 properties, and numbers around every integer constant in the code, each followed exactly; properties beyond the third are not timers. Assumes that msgfmt formats as asked (C26). The decoration (colours, separators) is free; the property "timer" of hrf may show the time since its value.')
prop('C22', 'A malformed message format never breaks the code that formats',
 'For every format string and every arguments, msgfmt.FormatterOf returns a formatter without panicking, and ends: every turn of its parser consumes input or reports an error. The format is accepted only if every "{" is closed by its "}", every {key} names a key of the arguments, every function is registered in Formats, and the functions accept their arguments; otherwise (also when a registered function returns an error, nothing, or panics) the text of the formatter names the error and shows all arguments - as JSON if they can be marshalled, otherwise as fmt prints them - and formatting does not panic.',
 ['inputs'], 'all format strings (errors at every token), arguments and functions',
 'The tests try a few malformed formats; the others (ending inside braces, functions that fail, arguments that can not be marshalled) are not sampled.',
 ['msgfmt/formatter.go','msgfmt/parse.go','msgfmt/custom.go','msgfmt/formatter_invalid.go'],
 [('compile','msgfmt/formatter.go'),('lexers','msgfmt/parse.go'),('newFuncFormatter','msgfmt/custom.go'),('invalidFormatter.Format','msgfmt/formatter_invalid.go')],
 SIM + ', with the reading primitives of package parse as models that may end or fail at any place and a panic fork at calls of registered functions', 'Every path of up to 2 tokens with up to 2 arguments each. Assumes C14 for the reading primitives.')
prop('C26', 'Message formats show the values they name',
 'The formatter FormatterOf makes for a well-formed format appends, in order, the literal texts of the format unchanged, and for {key} the value after the first key of the arguments that is equal to it, by the type the value has when it is formatted: what String() returns for a Stringer, a string as it is, a []byte escaped (C16), anything else as jsonfmt encodes it. {key, func, args} appends what the formatter made by the registered function appends, which is asked with exactly that key, those arguments and the sample; {key, goTime, layout} shows a time.Time in the layout (by default RFC3339). A well-formed format whose keys are there is not an error. A formatter is used again only for the same format and arguments of the same number, keys and types. Sprintf returns that text; Fprintf and Printf write exactly it in one write, to the given writer or stdout, and return what Write returned; Println and Fprintln write the value (one), all values as a list (several), or nothing, followed by a line break.',
 ['inputs','histories'], 'all formats, arguments (number, keys, types) and sequences of uses of a format',
 'The tests format a few fixed messages once; a wrong value needs equal keys, a later use with other arguments, a number of tokens or arguments, or a value of an unusual type.',
 ['msgfmt/msgfmt.go','msgfmt/formatter.go','msgfmt/parse.go','msgfmt/custom.go','msgfmt/formatter_json.go','msgfmt/formatter_stringer.go','msgfmt/formatter_str.go','msgfmt/formatter_bytes.go'],
 [('FormatterOf and its cache','msgfmt/msgfmt.go'),('lexers','msgfmt/parse.go'),('writeValue','msgfmt/formatter_json.go'),('GoTimeFormat','msgfmt/custom.go')],
 SIM + ', in two phases: making the formatter over symbolic tokens, then its Format from the state that left behind', 'One token with 0 to 3 arguments of any keys and types, 2 and 3 tokens, and numbers of tokens and function arguments around every integer constant in the code, each followed exactly. Assumes C14 for the reading primitives, and that registered functions do not return formatters of package msgfmt.')

prop('C14', 'A parser sees every byte of its input once, in order',
 'However a reader splits its data, Peek and PeekN of the parse.Source over it (and over a string) show the bytes of the input in order, each until it is consumed: peeking (Peek, Peek1, PeekN, PeekRune) consumes nothing, ConsumeN(n) consumes n bytes or all there are, Consume what Peek shows, Consume1 the next byte if it is the expected one (and reports an error if not). PeekN(n) gives the next n bytes, or all remaining ones with the error that ends the input. PeekRune decodes from all bytes a rune that starts with the next byte has (or all there are). Peek shows at least one byte as long as the input has any. Error is nil while bytes remain and nothing was reported, and the error the reader ended with (io.EOF for a string) once all are consumed; a reader that gives nothing again and again ends with io.ErrNoProgress instead of waiting forever. Using a byte past the end (Peek1, Consume1) is an error other than io.EOF. The first error that is not io.EOF is kept. NewSource fails with the error of the reader if it has no bytes. SetBuffer changes nothing of this. No operation panics.',
 ['inputs','histories','fault_sequences'], 'all inputs, all ways a reader can split and end them, all sequences of operations',
 'The tests use a few fixed inputs and one way to split them; data lost at a split, an early error, or a short read needs a particular combination of split, look-ahead and consumption.',
 ['parse/parse.go'],
 [('Source','parse/parse.go'),('PeekRune','parse/parse.go')],
 SIM + ' over symbolic bytes, comparing every operation with the position in the stream', 'Inputs of up to 5 bytes (each byte symbolic) split into up to 4 reads in some 60 ways, with every kind of end, histories of up to 3 operations followed by consuming the rest; PeekRune for each of the 256 first bytes. Assumes that utf8.DecodeRune decodes the bytes it is given, and a buffer of at least one byte.')
prop('C19', 'Typed reflection never touches a value of another type',
 'Every operation of a reflect2 type (of the default, unsafe configuration) or of one of its struct fields that takes an object or value as interface{} - Set, IsNil, Indirect, GetIndex, SetIndex, TryGetIndex, Append, Grow, LengthOf, Cap, SetNil, Iterate, StructField.Get and Set - panics unless each object is a pointer to the type and each key, element or value a pointer to the key, element, field or value type, exactly, whatever index or memory it is used with; it has not changed any memory when it panics. Only IsNil of a type whose values can be nil takes a nil interface (and says that it is nil). Types are told apart by their identity, not by name or size.',
 ['inputs'], 'all types (of every kind) and objects of any dynamic type',
 'The tests only pass objects of the right types: that others are refused, on every path and before anything is written, is not tested; a missing check is memory corruption.',
 ['reflect2/unsafe_type.go','reflect2/unsafe_slice.go','reflect2/unsafe_array.go','reflect2/unsafe_map.go','reflect2/unsafe_field.go','reflect2/unsafe_struct.go','reflect2/unsafe_ptr.go','reflect2/unsafe_eface.go','reflect2/unsafe_iface.go'],
 [('assertType','reflect2/unsafe_type.go'),('operations','reflect2/unsafe_slice.go')],
 SIM + '; interfaces are taken apart into the words of their type and data, and the type a type wraps is followed from the making of the type (Type2) to its use', 'Every path of every operation for a type of each kind (about 60 types) and objects of unknown type. The Unsafe* operations take what they are given, by design; the safe configuration is package reflect itself.')
prop('C20', 'Typed reflection reads and writes exactly the element, field or value',
 'For every type, the operations of reflect2 (default configuration, right types, indexes in range) do what Go does for values of the type: Set makes the first value equal to the second (all of a slice: data, length, capacity); GetIndex/UnsafeGetIndex give a pointer to exactly the element, SetIndex writes exactly it; Field, FieldByName, FieldByIndex and FieldByNameFunc give the field - also one promoted from an embedded struct or pointer to a struct - whose Get, Set, Type and Offset are of exactly that field; FieldByName of no field gives nil (or panics), not a field; MakeSlice, MakeMap and New make new values of the type, length and capacity asked for; Append adds one element behind the others, Grow sets the length, both keep all elements before, and the capacity is never less than the length nor more than the memory there is; SetNil makes a slice nil; LengthOf and Cap tell the length and capacity; a map is read, set and iterated as this map with its own key and element types (TryGetIndex tells if the key is there); Indirect gives the value itself, of the type, whatever way Go keeps such values in an interface (LikePtr); IsNil is true exactly for nil pointers, maps, channels, functions, slices (no data), interfaces with methods without value, and interface{} without data; Key, Elem, Type, RType and Type1 are the types they name. TypeOf gives the type of an object, PtrOf and RTypeOf its words, reflect2.IsNil whether it holds no value; Implements and AssignableTo ask about this type and the other one. Type2 gives a type made for exactly that type.',
 ['inputs','histories'], 'all types of every kind (also arrays and structs of one element kept directly in interfaces), values, indexes, lengths and capacities',
 'The tests use one or two types per kind with small values; a wrong element size, a lost element when growing or a wrong calling convention needs another type, a larger slice or a nested one.',
 ['reflect2/reflect2.go','reflect2/unsafe_type.go','reflect2/unsafe_slice.go','reflect2/unsafe_array.go','reflect2/unsafe_map.go','reflect2/unsafe_field.go','reflect2/unsafe_struct.go','reflect2/unsafe_ptr.go','reflect2/unsafe_eface.go','reflect2/unsafe_iface.go'],
 [('Type2, wrapType, likePtrType','reflect2/reflect2.go'),('UnsafeGrow, UnsafeAppend','reflect2/unsafe_slice.go'),('UnsafeMapIterator','reflect2/unsafe_map.go'),('UnsafeStructField','reflect2/unsafe_field.go')],
 SIM + '; addresses are compared as polynomials over base, index, element size and offset, and growing is followed with symbolic length and capacity through an arbitrary iteration of its loop', 'Every path of every operation for a type of each kind (about 60 types), symbolic objects, indexes, lengths and capacities. Assumes the functions of the runtime (typedmemmove, typedslicecopy, unsafe_New, mapassign, ...) and the layout of interfaces of the compiler. Indexes are not compared with bounds, by design.')
prop('C28', 'An expression is grouped by the precedence of its operators',
 'parse.Parse(src, lexer, precedence) asks the lexer for a prefix token: without one it reports an error and returns nil, otherwise the operand is what the PrefixParse of the token returns. Then, as long as the source has no error, it asks for an infix token and its precedence: without one, or if its precedence is not higher than the given one, it returns the operand; otherwise the operand becomes what the InfixParse of that token returns for the source and the operand so far (so operators of the same precedence group from the left, stronger ones bind first). With an error it returns the operand it has. Parse itself consumes nothing of the source: tokens do. parse.String parses the input from precedence 0 and returns the result and a nil error if the source ended without error or with io.EOF, otherwise nil and that error.',
 ['inputs'], 'all sources, lexers, tokens and precedences; any number of operators',
 'The tests parse a few fixed expressions with two levels of precedence; a wrong grouping needs a particular sequence of precedences, a lost error an operand that fails.',
 ['parse/parse.go'], [('Parse, String','parse/parse.go')],
 SIM + '; the trace of calls of lexer and tokens is compared with precedence climbing step by step', 'Every path with up to 3 operators of unknown precedences, and an arbitrary iteration of the loop. Lexers and tokens are unknown code.')
prop('C09', 'A log context keeps what is added to it',
 'countlog.Ctx returns its argument if that is a *countlog.Context already, otherwise a new Context around it with an empty log context of its own, that no other Context shares. Value of a Context gives its log context for spi.LogContextKey, and for every other key what the wrapped context gives; of a nil *Context it gives nil. Context.Add and spi.AddLogContext append exactly the key and the value behind all properties the log context of the context has, keep these as they are, and change nothing else; AddLogContext does nothing for a context without log context. spi.GetLogContext returns the log context of the context, whatever else is true of the context, and nil if it has none.',
 ['inputs','histories'], 'all contexts (own, foreign, nested, nil), keys and values, and numbers of properties',
 'The tests add one property to a fresh context; a lost or shared property needs a nested context, equal keys, or several additions.',
 ['countlog/context.go','countlog/spi/context.go'], [('Ctx, Value, Add','countlog/context.go'),('AddLogContext, GetLogContext','countlog/spi/context.go')],
 SIM + '; the properties afterwards are compared with a list of pairs', 'Every path with 0 to 6 earlier properties of any keys and values. Concurrent additions to one log context are outside (Add takes no lock, by design).')
