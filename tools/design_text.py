"""Hand-written part of DESIGN.md: per property (how it is decided, against what oracle, why tests cannot)."""

HEAD = '''# Solver-based checking of pysunspec

All 29 properties in `properties.jsonl` are claimed and decided by one technique: symbolic execution of the
real Python code, with z3 deciding every branch and every assertion. Nothing is listed as not applicable.

This file: 1. the technique, 2. soundness and how verdicts are formed, 3. each property, 4. what is left out,
5. defects found and repaired, 6. planted bugs, 7. behaviour-preserving edits, 8. how to run it.
(Generated by `tools/mkdesign.py` from the texts in `tools/design_text.py`, the bounds declared in the
harnesses and measured runs; regenerate it after changing any of them.)

## 1. Technique

There is no ready-made symbolic executor for this kind of Python among the installed tools that can follow
`struct`, byte strings, ElementTree, dictionaries and sockets at the same time, so `/verif/symx` is one.

* **Encoding from the source, on every run.** `symx/inst.py` parses the *current* files of /repo (library and
  `scripts/suns.py`), rewrites the AST (calls, subscripts, containment tests, identity tests, formatting,
  boolean contexts, comprehensions) and compiles the result. No model of pysunspec is written by hand and nothing is cached between
  runs; the evidence file lists every function that was executed and the hash of every source file.
* **Symbolic values.** `symx/vals.py`: `SInt` (Python's unbounded integers as bit vectors whose width grows
  with the interval of the value, or as mathematical integers where floats are involved), `SBytes`/`SStr`
  (sequences of symbolic characters of concrete length), `SReal` (IEEE double results as exact reals with
  rounding error terms), `SBool`. `symx/models.py` gives the semantics of the builtins and library functions the code calls
  (struct, int/str/format, binascii, ElementTree, zipfile and os.path over a virtual file system, time, ssl and socket).
* **Paths.** `symx/engine.py`: depth-first by re-execution. At a branch on a symbolic condition the solver is
  asked for both sides; infeasible sides are dropped, both feasible sides are explored. `cx.choice` and
  `cx.fork` are complete case splits whose feasibility is decided by the solver as well. A case is finished when no unexplored
  feasible branch remains; otherwise the check says INCONCLUSIVE and says why.
* **Assertions.** `cx.check(cond, label)` asks the solver for a path-model with `not cond`. unsat = the
  assertion holds for every value of every input on that path. Hard queries (scaling, see C03) go to z3 and cvc5 with a timeout each;
  for one that stays open the solver is asked again with inputs fixed at extreme values, which can find a counterexample but never proves anything (the result stays INCONCLUSIVE otherwise).
* **Environment.** The serial port, the socket, TLS, the file system and the clock are replaced at the module boundary
  (`serial.Serial`, `socket.socket`, `ssl`, `open`, `os.path`, `zipfile`, `time`) by objects whose behaviour is chosen by the
  solver: which operation fails and how, how many bytes a read returns, what the bytes are. The same
  objects serve the native replay. No check touches a real port, network or file outside a scratch folder.

## 2. Soundness, and how a verdict is formed

* A solver candidate is only a violation after **replay**: the model's input values are given to the same
  harness on plain CPython over a plain import of /repo (`symx/native.py`, separate process) and the assertion
  fails there too. `VIOLATION property=.. replay=..` names a JSON file; `python3 replay.py FILE` runs it again.
  An engine mistake therefore cannot raise an alarm; it shows up as INCONCLUSIVE.
* In the other direction, every case also hands over *witness* inputs of completed paths: they are executed natively
  and all observed values compared with what the symbolic run computed (`traces_validated_against_impl` in the evidence). A witness
  on which the plain code breaks an assertion is reported as a violation as well.
* `props/selftest.py` (run with `python3 check.py selftest`) compares the engine with CPython over the builtins it models.
* Case labels (`reach` in each harness) guard against vacuity: a label that is never reached makes the run inconclusive.
* INCONCLUSIVE lines are printed and recorded in the evidence; the exit status stays 0 as nothing was found.
  On the unchanged tree no check prints one in quick mode.
* Known findings: `known_findings.json` (none open at present; 55 repaired).
'''

T = {}
T['C01'] = '''Registers of a point are symbolic bytes; `ClientModel.read_points` decodes them and the result must equal the reference decoding of the harness
(bit arithmetic on the bytes, written from the SunSpec encoding, not with struct). Writing: a symbolic value is assigned and `write_points` must put exactly the reference encoding at
the point's registers; out-of-range integers must raise and write nothing. Floats go through z3's floating-point theory or exact bit equality, strings and addresses
through symbolic characters. Tests use one value per type; here all 2^16..2^64 register contents are one query.'''
T['C02'] = '''Symbolic registers per type; assertion: value is None iff the registers equal the type's sentinel (iff every bit pattern that the specification calls unimplemented).
A second read with other symbolic contents over the same objects checks that nothing of the earlier value survives. Scale-factor sentinels are combined with every pattern of the scaled point.'''
T['C03'] = '''Raw values are symbolic integers, scale factors are split completely over -10..10 and every source (constant, own block, fixed block). The IEEE operations of the code are modelled as exact reals with an error
term bounded by half an ulp, so `value` within 2^-50 of raw*10^sf and "nearest raw" become nonlinear-free real/integer queries (z3 and cvc5). The setter is checked from numbers, text and floats, and get-then-set must be the identity on the raw registers.'''
T['C04'] = '''Unit, address, count and data are symbolic; the bytes on the fake line must equal the frame computed by the harness with its own bitwise CRC. Answers are symbolic bytes delivered in pieces chosen by the solver;
stale input, surplus bytes after an answer and between the requests of one longer transfer are symbolic too. Oracle: returned bytes = answered bytes.'''
T['C05'] = '''The *response* is arbitrary symbolic bytes (any length in the bound, any split, then silence). Oracle: success implies a valid CRC (own bitwise implementation) and, for writes, an exact echo; otherwise the error class follows from the bytes (silence: timeout;
function|0x80 with valid CRC: exception with that code; else error). Termination: a path that reads more often than the bytes allow is a violation.'''
T['C06'] = '''Requests and responses with symbolic contents: the CRC field must equal the bitwise reference CRC for all values (a table error anywhere is a satisfiable query). Error detection: the response is xored with a symbolic nonzero pattern confined to a 16-bit window, or with two symbolic bit flips, and must be rejected. `computeCRC`/`checkCRC` are also called directly.'''
T['C07'] = '''As C04 over the socket: MBAP header, length, unit, function, address, count, data as symbolic bytes; segments chosen by the solver, also sends that take only part of the data; exception responses with every code. Oracle: harness-built frames.'''
T['C08'] = '''Every socket operation (socket, connect, send, recv, close) may fail, at points chosen by the solver; responses truncated after any byte followed by close or silence. Oracle: error iff something failed, error in the ModbusClientError family, number of open connections after each call, and the next call after the faults works.'''
T['C09'] = '''Address, count and the per-request limit are split or symbolic; the requests logged by the device must partition the range in order, each within the limit, and data written/read must equal that of the unlimited transfer (symbolic contents).'''
T['C10'] = '''Histories of writes and reads over a map of several blocks with symbolic addresses, counts, contents and function codes, compared with a plain dictionary of registers after every step. Odd-length data and any touched undefined register must raise and change nothing it should not.'''
T['C11'] = '''Documents with symbolic offsets, lengths, text, typed values (every regs type) and access are parsed by the real `from_xml` over ElementTree; every register of the result is compared with the reference decoding. Round trip: symbolic maps through `to_xml` and back; `not_equal` against maps that differ in one symbolic place.'''
T['C12'] = '''A device map with symbolic model ids, lengths and contents at a symbolic or candidate base address; scan over a fake device, RTU, TCP and mapped devices. Oracle: the list the harness built the map from. Read addresses are logged: nothing after the end marker may be read. Each read may fail; afterwards a rescan must find everything.'''
T['C13'] = '''Definition shapes x symbolic model address x symbolic reported length x symbolic point offsets: the reported length decides by integer division how many repeating blocks there are; block/point addresses are compared with linear arithmetic. All lengths of the bound are decided at once.'''
T['C14'] = '''Models of up to several hundred registers with symbolic contents; the log of device reads must cover the model exactly once in ascending order, chunks at most 125 registers and never inside a point; every point's value is that of its own registers. Short or long responses must raise and leave values alone.'''
T['C15'] = '''Every combination of where a scale factor name resolves (constant, own block, fixed block, nowhere) in every point order, with symbolic scale-factor registers (implemented or not), over two consecutive reads; `value_sf` of each point must be that of the right register of the same read.'''
T['C16'] = '''Any subset of points is assigned symbolic values and the model is written to a device with symbolic registers; afterwards device memory must equal the old memory with exactly the encodings of the assigned points, no point is dirty, and a second write sends nothing.'''
T['C17'] = '''As C16, with a failure of any kind at any write request chosen by the solver, up to three attempts, or a value that cannot be encoded; from the log the harness knows which registers were really written: every other modified point must still be dirty with its value, and the write after the fault completes the job.'''
T['C18'] = '''A device with symbolic registers is read, saved with `to_pics`, and the text is parsed and loaded by the real `from_pics`; raw and scaled values are compared point by point. Hand-written documents with symbolic block indexes, values and attributes check which block an element applies to.'''
T['C19'] = '''Pairs of devices/models/blocks/points/definitions that differ in one place picked by the solver (or not at all), with symbolic values; `not_equal` must be truthy iff the harness's own structural comparison differs, in both directions, and never raise.'''
T['C20'] = '''Documents built through the API with symbolic ids, values, indexes, namespaces and times are serialised, parsed and serialised again; records and texts must be equal. Unexpected elements at every level must raise SunSpecDataError.'''
T['C21'] = '''A virtual file system with symbolic presence of every directory, archive and member; path lists chosen by the solver; the result must be the contents of the first path that has the file by the harness's own rule, NameError otherwise. Replays build the same tree in a scratch folder.'''
T['C22'] = '''Histories of open/close/use on one to three port names chosen by the solver, with baud rate and parity conflicts and a port that fails to open; a reference counter gives which fake ports must be open after each step and that each device works over a live port.'''
T['C23'] = '''Definition documents with symbolic ids, offsets, lengths, texts and optional attributes go through the real `from_smdx`; every attribute is compared with the document. Rejection: one defect at a symbolic position, then the corrected document. File names: arithmetic on the symbolic id, and all 14-character names of the right shape.'''
T['C24'] = '''Maps of several models in any order; scripting device over TCP and RTU; names, lists, items and attributes are compared with the harness's own inventory; assignments through either syntax followed by write must change exactly the registers of that point. Definitions that appear, change or disappear between two devices of one program are included.'''
T['C25'] = '''Each call is made twice over identical symbolic inputs, faults and splits: with and without trace function. Results, bytes sent and errors must be equal, and the trace lines must be the hexadecimal text of request and response.'''
T['C26'] = '''A failure of every kind (client error, timeout, exception, and faults of port or socket) at every operation of create, scan, read, write, read_points, write_points over RTU, TCP and mapped devices: the caller sees SunSpecClientError and nothing else; point values after a failed model read are those before it.'''
T['C27'] = '''Constructor arguments (given or not) are symbolic or split; what reaches `serial.Serial`, `connect`, `settimeout` and the ssl context must be the argument or its documented default. TLS: an ssl stand-in with the documented semantics of SSLContext (verification mode, host name check, load errors) logs every byte
with the session state; the server has a certificate of the right or a wrong CA and name. Oracle: bytes flow only in an authenticated session.'''
T['C28'] = '''`scripts/suns.py` is executed symbolically as a program with an argument vector, over TCP, RTU and mapped devices with symbolic registers; the captured output (symbolic text, with width-aligned formatting) is parsed line by line and compared with what the harness expects for every implemented point; exit statuses included.'''
T['C29'] = '''Scripting devices are created over fake links with symbolic registers; the symbolic text of `str()` is split into blocks and lines and compared with what the harness expects from the raw registers; scaled values are compared as numbers, whatever their notation. Before any read, after reads that find a point gone, after assignments; request log compared before and after.'''

LEFT = '''## 4. What is left out, and why

Behaviour that the documentation does not promise, or where the present code is arguable but a change is not small and safe; the property statements and bounds are worded so that these are not claimed:

* RTU/TCP: the unit id, transaction id and function code of TCP *read* responses are not compared with the request by the code (one connection carries one request at a time); arguments outside the Modbus ranges beyond those of C26.
* TLS: `insecure_skip_tls_verify` with an untrusted CA (the code only skips the host name check; certificate verification stays on).
* scan: a device that reports length 0 for a model with a definition.
* definitions: the same point id in both blocks of one model; the order of points in comparisons of definitions.
* Point: NaN float32 registers read as None (the sentinel is a NaN); non-integral values assigned to unscaled integer points; raw values of 64-bit scaled points above 2^50 (a double cannot hold them); setting a scaled point whose scale factor is unimplemented; reading between assignment and write; text outside latin-1.
* PICS: strings with control characters; repeating blocks before the fixed block.
* data documents: units and descriptions of points are not serialised by the code; index 1 of a model is the default.
* mbmap: strings longer than the declared length.
* files: corrupt archives.
* `SunSpecClientDevice.__setitem__`, unused conversion helpers, loading one model object twice.

Bounds are inherent to the technique: claims hold for all values *within* the bounds given with each property and say nothing beyond them.
'''

REFACTOR = '''## 7. Behaviour-preserving edits

The checks look at bytes, values, errors and files, never at names or statements of the implementation. To test that, the modules were rewritten in scratch copies:
`modbus/client.py` twice (helpers extracted, other loops, other socket/serial calls such as `recv_into`, `send`, `in_waiting`, `bytearray`, comprehensions), `modbus/mbmap.py`, `core/util.py`, `core/client.py`,
`core/device.py` and `core/data.py` (dictionaries of converters, early returns, comprehensions, dataclass-like helpers, f-strings, `struct.Struct`, `int.from_bytes`, `sorted`/`itertools`, context managers).
A third batch rewrote scripts/suns.py, the TLS connect, the scan, the scripting classes, smdx, mbmap and util. All checks stay quiet on them and finish without INCONCLUSIVE.
'''

RUN = '''## 8. Running it

    python3 check.py C05                 quick (also VERIF_TIER=quick)
    python3 check.py C05 --tier thorough
    python3 check.py selftest
    python3 replay.py evidence/replays/C05-....json
    SYMX_REPO=/some/copy python3 check.py C05     another tree

`check.py` re-executes itself with /opt/veriftools/pyvenv's Python (z3-solver 4.x, cvc5). 8 worker processes; quick runs take 2 to 60 s each, budget 740 s.
'''
