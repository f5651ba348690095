TECH = 'contract-based deductive verification (govc: weakest-precondition/symbolic VC generation over go/ssa of the real code, discharged by z3, cvc5 as second back end)'
NOTE = ('No hooks: the contracts are overlaid into the packages at check time, /repo carries none of them. '
        'The repairs of genuine defects are the fix: commits listed in known_findings.txt.')
T = ' Trusted: govc itself, the SMT solvers, the models of the standard library (DESIGN.md), the specification functions.'
CLAIMS = {
 'C10': {'note': 'For all contents, positions and buffer lengths, every metadata value of the valid domain: CellBytes of the integer, FLOAT, DOUBLE, YEAR, BIT, ENUM and SET types. strconv.AppendFloat(f,-1) is modelled by its documented round-trip property.' + T},
 'C11': {'note': 'For all 1 <= p <= 65, 0 <= s <= min(30, p), every representable value: CellBytes of TypeNewDecimal equals the specified text. Negative zero is excluded (MySQL never stores it).' + T},
 'C12': {'note': 'For every representable DATE, TIME, DATETIME, TIMESTAMP, old and new format, every fractional precision: CellBytes equals the specified text. time.Unix/Date/Clock are uninterpreted functions of the second (any zone).' + T},
 'C13': {'note': 'For all declared lengths, actual lengths and contents: CellBytes of the string, blob and geometry types returns exactly the payload bytes.' + T},
 'C09': {'note': 'For every table map, presence bitmaps, row count and contents: Rows splits the body into exactly the encoded images (inductive invariants over rows and columns, cellLength under contract); per type, cellLength equals the length consumed by CellBytes for all contents.' + T},
 'C15': {'note': 'For all bodies: readLenEncInt, metadataRead, TableID and TableMap (any number of columns, inductive invariants) decode to the specified schema.' + T},
 'C16': {'note': 'For all contents: header accessors, Format, Rotate, Query (any list of status variables, inductive), IntVar, Rand and StripChecksum against their specification.' + T},
 'C17': {'note': 'For every byte buffer shorter than 2^32: IsValid accepts exactly the buffers with a full header and matching length; accessors never fail on accepted buffers.' + T},
 'C01': {'note': 'For every event in every state (inductive over the event loop, the row loops and the column loops): parseEvents, getValuesFromRow, getIdentifiesFromRow, append*EventFromRows, GetStatementCategory, readBinlogEvent, the reader goroutine and Stream under contract, composed with the contracts of C09-C17. End to end (a simulated master over TCP) only by bounded native runs, not counted as proved.' + T},
 'C02': {'note': 'For every event in every state: one iteration of the loop of parseEvents (inductive invariant: any number of buffered changes, any earlier event), GetStatementCategory for every ASCII text. BEGIN inside an open transaction and ROLLBACK TO SAVEPOINT are outside the well-formed binlogs considered.' + T},
 'C03': {'note': 'Labels of every delivery and the position after every event (parseEvents, inductive); Stream starts the dump and the parser at the stored position and stores what the parser returns. That a resumed stream yields the remaining transactions follows by induction over the events (DESIGN.md) and is also run natively (bounded).' + T},
 'C04': {'note': 'parseEvents returns, on every path, the boundary after the last accepted transaction; Stream stores it on every path on which a dump ran and leaves the position alone otherwise.' + T},
 'C05': {'note': 'Contracts of the reader goroutine, Stream, Error, newSlaveConnection, close and the watched Exec with an abstract environment for the channels and the context: no operation waits for something that may not come, the context is cancelled and the connection closed (after the reader is gone) on every path, reasons are published exactly once. Trusted: the driver ends a read when its context ends. Data races: by ownership (one goroutine, channel hand-over) and the race detector on bounded native schedules. One known finding (dial window).' + T},
 'C06': {'note': 'Contracts of readBinlogEvent, the reader goroutine, Error, Stream, newSlaveConnection and parseEvents: every failure is returned or published before the event channel closes; Error is nil exactly for cancellation and EOF.' + T},
 'C07': {'note': 'Contracts of newSlaveConnection, prepareForReplication, startDumpFromBinlogPosition, Stream and the watched Exec: what is asked, in which order, with which arguments. Offsets below 2^32 (the protocol field). Packet encoding is the driver\'s (trusted; native runs decode it).' + T},
 'C08': {'note': 'readBinlogEvent copies every packet and leaves the driver\'s buffer alone; CellBytes of every type writes to nothing that exists and returns new bytes or bytes inside the cell; the delivered list is not reused by parseEvents. Everything above that is checked by bounded native runs (snapshots, overwriting).' + T},
 'C14': {'note': 'Every printer of a JSON document under contract, for all contents: objects and arrays (any number of members, small and large, inductive), value entries (inlined or by offset), scalars, strings, opaque DATE/TIME/DATETIME/DECIMAL, the length prefix, the cell. Recursion by induction over the document: the text of a nested value is an uninterpreted function of type and offset. Well-formed documents; strings and keys of any bytes (escaping: every byte, inductive).' + T},
 'C20': {'note': 'Contracts of the marshalers of Transaction, StreamEvent, RowData and ColumnData and of the type and statement names, for all contents; nesting by induction. encoding/json is modelled by its documentation (type to JSON mapping, tags, embedding, omitempty). Well-formedness of the bytes, escaping and UTF-8 replacement are encoding/json\'s (trusted; bounded native runs parse the text back).' + T},
 'C18': {'note': 'For canonical sets of any number of servers and intervals (interval lists as unknown functions with the canonical-form facts): ContainsGTID, Contains, Equal and AddGTID against the set model, inductive over servers and intervals; AddGTID writes to nothing that exists; lemmas: membership at its place, cover by one interval, uniqueness of the canonical form, the built list is canonical and denotes the union. Histories by induction over AddGTID. Sequence numbers 1..2^63-2 (the largest MySQL uses).' + T},
  'C19': {'note': 'For all contents and any number of servers, intervals and domains (inductive): SID and GTID texts and their parsers, EncodeGTID/DecodeGTID, the text and the SID block of MySQL 5.6 sets and their parsers, PreviousGTIDs, the GTID events of both flavors, text, parser, comparison, containment and adding of MariaDB positions. Text lemmas trusted: strings.Split gives back what was joined with a separator no part contains, TrimSpace leaves a text without white space alone, sort.Sort sorts. MariaDB sequence numbers 1..2^63-1. Also run natively (bounded), not counted as proved.' + T},
}
NA = {}
