"""Writes /verif/properties.jsonl."""
import json, os
P = []
S = "src/sentinel/"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=("Wishbone bus, irq and reset ports of sentinel.top.Top",)):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f if "/" not in f else f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})


CORE = "The stable tests never clock the CPU; the simulation tests in the repository run a few fixed programs with a fixed memory latency"
p("C01", "Integer computations give the RV32I result for every operand",
  "Every RV32I computational instruction (LUI, AUIPC, OP-IMM and OP, including all shift amounts) leaves in its destination register exactly the value the ISA defines for its source registers, immediate and pc, and execution continues at pc+4. This holds for every operand value, every immediate, every shift amount and every choice of registers, including overlapping ones.",
  ["inputs", "programs"], "all operand values, immediates, shift amounts, pcs and register choices",
  CORE + ", so they sample a handful of the 2^64 operand pairs per operation.",
  ["alu.py", "datapath.py", "decode.py", "microcode.asm", "control.py", "top.py"],
  [("ALU operations, input and output modifiers", "alu.py: ALU"), ("operand latches and source muxes", "alu.py: ASrcMux, BSrcMux"), ("immediate generation", "decode.py: ImmediateGenerator"), ("per-instruction microcode routines, shift loop", "microcode.asm")],
  [("general purpose registers", "x0-x31 block RAM", "datapath.py: RegFile")])
p("C02", "Loads access the right lanes of the right word and extend correctly",
  "A load performs exactly one bus read, of the word containing the effective address rs1+imm, with the byte-select lines set for exactly the bytes the access covers. The destination register receives those bytes, sign- or zero-extended as the instruction says, whatever the other byte lanes of the word carry. A misaligned halfword or word load performs no bus access, leaves the destination unchanged and traps with cause 4.",
  ["inputs", "programs"], "all effective addresses, data words, load widths, register choices and bus latencies",
  CORE + ", so the lane, extension and alignment cases are sampled.",
  ["align.py", "alu.py", "microcode.asm", "exception.py", "top.py"],
  [("address and byte-select generation", "align.py: AddressAlign"), ("read-data alignment and extension", "align.py: ReadDataAlign"), ("latched data address", "top.py: data_adr"), ("misalignment detection", "exception.py: ExceptionRouter")])
p("C03", "Stores write exactly the selected bytes of the right word",
  "A store performs exactly one bus write, to the word containing the effective address rs1+imm, with the byte-select lines set for exactly the bytes the access covers and the low byte, halfword or word of rs2 on exactly those lanes. A misaligned halfword or word store performs no bus access and traps with cause 6. A store changes no register.",
  ["inputs", "programs"], "all effective addresses, data values, store widths, register choices and bus latencies",
  CORE + ", so the lane and alignment cases are sampled.",
  ["align.py", "microcode.asm", "exception.py", "top.py"],
  [("write-data replication", "align.py: WriteDataAlign"), ("address and byte-select generation", "align.py: AddressAlign"), ("latched address and data", "top.py: data_adr, write_data")])
p("C04", "Branches and jumps go exactly where the ISA says and link pc+4",
  "A conditional branch is taken exactly when its comparison of rs1 and rs2 holds; a taken branch, JAL or JALR continues at the ISA-defined target (JALR clears bit 0), and an untaken branch at pc+4. JAL and JALR write pc+4 to rd, with rs1 read before rd is written. A taken transfer to a target that is not 4-byte aligned traps with cause 0 at the transferring instruction and leaves rd unchanged.",
  ["inputs", "programs"], "all operand pairs, offsets, program counters and register choices",
  CORE + ", so only a few offsets and operand pairs are ever tried.",
  ["microcode.asm", "control.py", "datapath.py", "alu.py", "decode.py", "exception.py"],
  [("condition tests", "control.py: condition mux"), ("program counter update", "datapath.py: ProgramCounter"), ("branch/jump microcode", "microcode.asm"), ("target alignment check", "exception.py: ExceptCtl.LATCH_JAL")])
p("C05", "Every 32-bit word is executed if legal and trapped as illegal if not",
  "Each 32-bit instruction word that is a legal RV32I, Zicsr, FENCE, ECALL, EBREAK, MRET or WFI encoding executes as that instruction. Every other word (including reserved funct fields, inexact ECALL/EBREAK/MRET/WFI encodings, FENCE.I, compressed or all-zero words) traps with cause 2 and has no other effect.",
  ["inputs"], "all 2^32 instruction words",
  "The decode unit tests check some encodings of some instructions; nothing enumerates the encoding space.",
  ["decode.py", "insn.py", "control.py", "microcode.asm"],
  [("legality checks", "decode.py: ExceptionControl"), ("instruction to microcode mapping", "control.py: MappingROM"), ("encodings", "insn.py: Insn, OpcodeType")])
p("C06", "Synchronous traps are precise",
  "When an instruction raises a synchronous exception, mepc holds that instruction's address, mcause holds its exception code with the interrupt bit clear, MPIE takes the old MIE, MIE becomes 0, and execution continues at mtvec. No general register and no other CSR changes and no data access is made. This holds for every exception source, from every machine state, including inside handlers and after earlier traps or interrupts.",
  ["programs", "histories"], "all exception sources, interrupt-enable states, vectors, pcs and preceding instruction or trap histories",
  CORE + "; repeated and mixed traps after one another are not exercised.",
  ["exception.py", "microcode.asm", "csr.py", "control.py", "decode.py"],
  [("cause latch", "exception.py: mcause_latch"), ("trap entry routine", "microcode.asm: exception handler"), ("MIE/MPIE shuffling", "datapath.py: CSRFile, CSROp")],
  [("mstatus, mcause, mepc, mtvec", "trap CSRs", "csr.py / datapath.py: CSRFile")])
p("C07", "CSR instructions implement the documented CSR map exactly",
  "For each of the 4096 CSR numbers the six Zicsr instructions behave as documented: implemented CSRs return the old value and are set, OR-ed or AND-NOT-ed on their writable bits only; documented read-only-zero CSRs read zero and ignore writes, or trap on any attempted write if they lie in the read-only range; all other numbers trap with cause 2. CSRRS/CSRRC with rs1=x0 (or a zero immediate) never count as writes, rd gets the value from before the write, and no other CSR or register changes.",
  ["inputs", "programs"], "all CSR numbers, operations, operand values, register choices and sequences of CSR instructions",
  CORE + "; only a few numbers and values are tried.",
  ["csr.py", "datapath.py", "decode.py", "microcode.asm"],
  [("CSR decode and access checks", "decode.py: CSRControl/ExceptionControl"), ("CSR storage", "datapath.py: CSRFile"), ("CSR microcode routines", "microcode.asm"), ("field layouts", "csr.py")])
p("C08", "Interrupts are taken exactly when pending and enabled, and precisely",
  "If the interrupt line is high and both mstatus.MIE and mie.MEIE are set throughout an instruction's fetch and decode, that instruction is not executed and the interrupt is taken instead; if the line is low throughout, or either enable is clear, no interrupt is taken. On entry mcause is 0x8000000B, mepc is the address of the instruction not executed, MPIE/MIE are stacked as for traps, nothing else changes, and MRET resumes exactly there. However the line moves, every instruction either executes completely, once, or not at all.",
  ["schedules", "histories"], "all interrupt-line waveforms relative to the instruction stream, all enable states and instruction sequences",
  "The interrupt tests raise the line at a few fixed points of fixed programs; arrival at every cycle of every instruction is not covered.",
  ["exception.py", "control.py", "microcode.asm", "datapath.py", "top.py"],
  [("interrupt sampling", "exception.py: LATCH_DECODER branch"), ("check_int microcode", "microcode.asm"), ("enable bits", "datapath.py: CSRFile")])
p("C09", "The MIE/MPIE stack and MRET behave as specified over any history",
  "A trap or interrupt sets MPIE to MIE and clears MIE; MRET sets MIE to MPIE, sets MPIE to 1 and continues at mepc; CSR writes to mstatus change exactly MIE and MPIE. MPP always reads as machine mode and every other mstatus bit as zero. This holds for every interleaving of traps, interrupts, MRETs and CSR writes, nested to any depth.",
  ["histories"], "all sequences of traps, interrupts, MRETs and mstatus/mepc writes",
  "Tests take a single trap and return; nesting and mixing are not explored.",
  ["datapath.py", "csr.py", "microcode.asm"],
  [("mstatus fast path", "datapath.py: CSRFile"), ("mret and trap microcode", "microcode.asm"), ("MStatus layout", "csr.py: MStatus")])
p("C10", "Every bus cycle obeys the Wishbone Classic handshake",
  "CYC and STB are always equal; once asserted they stay asserted, with ADR, WE, SEL and (for writes, on selected lanes) DAT_W unchanged, until ACK. In the cycle after an ACK, CYC and STB are deasserted for at least one cycle. This holds for every program, every ACK delay of at least one cycle after the request appears (the documented minimum handshake), every interrupt waveform and whatever DAT_R carries outside an acknowledged read.",
  ["schedules", "programs"], "all acknowledge delays, interrupt waveforms, idle-bus data and programs",
  "The memory models used in the tests answer with one fixed latency and nothing checks bus stability cycle by cycle.",
  ["top.py", "align.py", "control.py", "microcode.asm"],
  [("bus outputs", "top.py: Bus conns"), ("address hold", "top.py: data_adr; align.py: AddressAlign"), ("request microcode", "microcode.asm: mem_req, WAIT_FOR_ACK style loops")])
p("C11", "Program results do not depend on bus latency or idle-bus data",
  "For any program, the sequence of fetches, loads and stores and all register and CSR values are the same for every ACK latency of every request (of at least one cycle, the documented minimum handshake) and for any data on DAT_R outside acknowledged reads. DAT_R is only consumed in the cycle its read is acknowledged, once.",
  ["schedules", "programs"], "all assignments of acknowledge delays to requests and all idle-bus data",
  "Tests use one latency and a quiet bus.",
  ["top.py", "control.py", "decode.py", "microcode.asm", "align.py"],
  [("ACK-conditioned microcode steps", "control.py: condition mux; microcode.asm"), ("decode strobe", "top.py: do_decode")])
p("C12", "Reset at any cycle restarts the CPU cleanly at address 0",
  "Whatever the CPU is doing, asserting reset for one or more cycles makes it abandon the work in progress: from the cycle after reset is asserted until the cycle after it is released there is no bus request, and the first request afterwards is a fetch of address 0. Then x0 reads 0, mcause reads 0, MIE is clear, and the program runs as it would from power-on.",
  ["crash_points", "schedules"], "reset at every cycle of every instruction, of any duration, with any acknowledge and interrupt activity around it",
  "Two fixed reset tests exist; the cycle at which reset arrives is not varied over the instruction stream.",
  ["top.py", "control.py", "microcode.asm", "datapath.py"],
  [("request suppression after reset", "top.py: mem_reset_guard"), ("sequencer reset", "control.py: Sequencer"), ("reset microcode", "microcode.asm: origin 0")])
p("C13", "Every instruction completes within its documented cycle count",
  "With every request acknowledged in the cycle after it appears, each instruction takes no more cycles from its fetch to the next than documented: 4 for register and immediate arithmetic, 9/10 for shifts by zero, 7+2n for shifts by n, 7/8 for branches, 7 for jumps, 9 for loads, 10 for stores, at most 10 for CSR instructions, 8 for MRET, and 5 more from the detection of an exception to the handler fetch. Each wait state costs exactly its own cycle, so no program, operand or interrupt waveform can stop the CPU from making progress.",
  ["schedules", "programs", "histories"], "all instructions, operands, preceding instructions, wait states and interrupt levels",
  "No test measures cycles; the documentation itself lists the missing test as a todo.",
  ["microcode.asm", "control.py", "alu.py"],
  [("microcode program length and overlap", "microcode.asm"), ("sequencer", "control.py: Sequencer"), ("documented counts", "doc/development/internals.md: Instruction Cycle Counts")])
p("C14", "An instruction changes only its own destination; x0 is always zero",
  "After any instruction, every general register other than its destination, and every CSR it does not write, has the value it had before. x0 reads as zero always, also after instructions that name it as destination, including loads, links and CSR reads.",
  ["programs", "inputs"], "all instructions, all combinations of register numbers, all register contents",
  "Tests compare whole register files for a few programs; register-number combinations are not enumerated.",
  ["datapath.py", "top.py", "microcode.asm", "decode.py"],
  [("register file write port and x0 protection", "datapath.py: RegFile, allow_zero_wr"), ("write-address selection", "top.py: DataPathSrcMux inline")])
p("C15", "Each instruction's result is independent of what ran before it",
  "The effect of an instruction depends only on the architectural state (registers, pc, CSRs, memory) and not on which instructions, traps or interrupts produced it: any instruction sequence ends in the state the ISA defines, in any order and combination. Hidden pipeline or latch state never leaks from one instruction into the next.",
  ["histories", "programs"], "all instruction sequences",
  "Unit tests run instructions from a fresh state or in one fixed order.",
  ["microcode.asm", "alu.py", "control.py", "top.py", "exception.py"],
  [("operand latches, ALU output register, decoder registers", "alu.py, decode.py"), ("fetch overlap in microcode", "microcode.asm")])
p("C16", "The RVFI port reports every retired instruction faithfully",
  "With the RVFI harness, each instruction that executes or traps is reported on rvfi by exactly one valid pulse, in order and with consecutive order numbers, carrying the instruction word, pc and next pc, source and destination register numbers and values, memory address, masks and data, and trap and interrupt flags that match what the CPU did architecturally. Nothing else raises valid.",
  ["programs", "schedules", "histories"], "all programs, wait states and interrupt waveforms",
  "The RVFI port is consumed only by external formal runs that need tools not in the test suite.",
  ["formal.py", "top.py", "decode.py", "datapath.py"],
  [("RVFI state machine", "formal.py: FormalTop"), ("formal-only ports", "top.py: rvfi; datapath.py")],
  observe=("rvfi, bus and irq ports of sentinel.formal.FormalTop",))
p("C17", "Building with formal=True never changes the CPU's bus behaviour",
  "A Top built with formal=True, and the CPU inside the RVFI harness, produce in every cycle exactly the same bus outputs as a plain Top given the same bus inputs, interrupt line and reset.",
  ["schedules", "programs", "configurations"], "all input sequences, cycle by cycle",
  "No test runs two configurations side by side.",
  ["top.py", "formal.py", "decode.py", "datapath.py", "csr.py"],
  [("formal parameter", "top.py: Top.__init__; decode.py; datapath.py")],
  observe=("bus outputs of Top(), Top(formal=True) and FormalTop()",))
p("C18", "Clock-enable stalls and inserted resets are transparent",
  "Wrapped in Amaranth's EnableInserter and ResetInserter, the CPU freezes in every disabled cycle and continues, when re-enabled, exactly as if the disabled cycles had not existed, whatever its inputs did meanwhile; an inserted reset has the same effect as a domain reset. Its outputs do not change during a freeze.",
  ["schedules", "fault_sequences"], "all placements and lengths of disabled cycles and inserted resets",
  "One test uses the wrappers with one fixed pattern.",
  ["top.py", "datapath.py", "control.py", "ucoderom.py"],
  [("all state in one resettable domain", "every component: m.d.sync"), ("memories behind enable", "datapath.py: RegFile, CSRFile; ucoderom.py")])
p("C19", "The generated Verilog is cycle-exact with the design it came from",
  "The Verilog written by the generator, for the plain core and for the RVFI core, under the default or any chosen module name, to a file or to standard output, describes a module with that name whose ports behave in every cycle exactly like the Python design's.",
  ["configurations", "programs", "schedules"], "all generator options and all input sequences",
  "No test generates Verilog and compares its behaviour with the source.",
  ["gen.py", "top.py", "formal.py"],
  [("option handling and conversion", "gen.py: generate, _main")],
  observe=("files written by python -m sentinel.gen",))
p("C20", "The microcode assembler places every field and word faithfully",
  "For any accepted microcode source, each named field of the ROM's output occupies exactly the bit range the source gives it, gaps included, and has the shape the field map gives. Reading any address yields, field by field, the value the source assigns (or the field default) for the instruction at that address and zero where there is none, and the hex and field-definition output files list the same words and fields.",
  ["inputs", "configurations"], "all field layouts (orders of widths, gaps, kinds) and programs",
  "The one test elaborates a single layout and asserts nothing about it.",
  ["ucoderom.py"],
  [("layout construction and padding", "ucoderom.py: _create_field_layout"), ("memory initialisation", "ucoderom.py: _create_mem_init")],
  observe=("sentinel.ucoderom.UCodeROM: fields layout, memory contents, hex file",))
p("C21", "Microcode sources that disagree with the field map raise ValueError",
  "If a microcode source names a field absent from the field map, gives a field a different width, gives an enumeration a different set of names or any different value, or uses more than one address space, constructing the ROM raises ValueError. If none of these holds, construction succeeds.",
  ["inputs", "configurations"], "all mismatches between a source and a field map",
  "No test feeds a mismatching source.",
  ["ucoderom.py", "ucodefields.py"],
  [("shape check", "ucoderom.py: _check_and_convert_dynamic_shape"), ("enum check", "ucoderom.py: _check_and_convert_dynamic_enum")],
  observe=("constructor of sentinel.ucoderom.UCodeROM",))
p("C22", "The RVFI CSR channels report every CSR access faithfully",
  "In every report on rvfi, rdata of mscratch, mtvec, mepc, mcause and mie is that CSR's value from before the reported instruction. For an instruction that accesses an exposed CSR, rdata is the value it read and, if it writes, wdata is the value it wrote (on writable bits; for a read-only-zero CSR, the value the operation computes), and the masks select exactly the word addressed; on a trap or interrupt, wdata of mepc and mcause is what was stored. Read-only-zero CSRs always report rdata zero.",
  ["programs", "schedules", "histories"], "all CSR instructions, operands, preceding histories, wait states and interrupt waveforms",
  "The RVFI port is consumed only by external formal runs that need tools not in the test suite.",
  ["formal.py", "top.py", "datapath.py", "csr.py"],
  [("CSR read ports and hold registers", "formal.py: FormalTop.elaborate, CSRS"), ("read-only-zero CSR shadow decode", "formal.py: csr_addr_shadow, csr_op_shadow")],
  observe=("rvfi.csr members of sentinel.formal.FormalTop",))
p("C23", "The ALU computes every documented operation at any width",
  "ALU(width), for every width, shows on o in each cycle the result of the operation its controls and inputs selected in the cycle before: A+B, A-B, A&B, A|B, A^B, A<<1, A>>1 logical and arithmetic, or A<B unsigned, all within width bits, after inverting the top bit of both inputs if asked and before inverting or clearing the result's lowest bit if asked. zero is set exactly when o is 0. No earlier operation has any effect.",
  ["inputs", "histories", "configurations"], "all widths, operations, modifiers, operands and preceding operations",
  "The width is only ever 32 in the tests, and operands are a few hand-picked values.",
  ["alu.py", "ucodefields.py"],
  [("operation units and result mux", "alu.py: ALU"), ("operation semantics", "ucodefields.py: OpType, ALUIMod, ALUOMod")],
  observe=("a, b, ctrl, o of sentinel.alu.ALU",))
p("C24", "Control runs any microprogram as the field semantics say",
  "Control built with any 256-word microcode source drives, in every cycle, each of its control outputs from the same-named field of the current microinstruction, and goes on to: the next address for cont; the target if the test holds and the mapped address otherwise for map; the target if the test holds, else the next address (direct) or address 0 (direct_zero). The test is the selected condition in that cycle (exception, ALU zero, memory valid, true), inverted if asked. From power-on, and while and after reset, execution starts at address 2 (the one cycle after reset is asserted is undefined).",
  ["programs", "inputs", "schedules", "configurations"], "all microprograms, field layouts, condition inputs, mapped addresses and reset placements",
  "Only the shipped microprogram ever runs, and it uses few of the combinations.",
  ["control.py", "ucoderom.py", "ucodefields.py"],
  [("next-address logic", "control.py: Sequencer"), ("condition test and field propagation", "control.py: Control.elaborate")],
  [("next_adr, ice40_rst_guard", "microprogram counter", "control.py: Sequencer")],
  observe=("interface of sentinel.control.Control",))
p("C25", "The core makes exactly the bus accesses the program asks for",
  "From reset on, the sequence of acknowledged bus accesses is exactly: for each instruction that executes, traps or is replaced by an interrupt one word-wide read at its pc, followed, for a load or store that executes, by exactly one access at its address with its direction, lanes and store data, and nothing else. No access is ever repeated, dropped, reordered, split or made speculatively, so devices with side effects see each access once. This holds whatever the wait states and the interrupt line do; an interrupt is taken between instructions, before the access of the instruction it replaces and after that of the one before it.",
  ["programs", "schedules", "fault_sequences"], "all programs, wait states, interrupt waveforms and resets",
  CORE + ", against memories that tolerate repeated and extra accesses.",
  ["microcode.asm", "top.py", "align.py", "control.py"],
  [("request generation", "top.py: Top.elaborate, mem.req"), ("fetch and access sequencing", "microcode.asm")])
p("C26", "The data path keeps registers, CSRs and program counter as commanded",
  "DataPath() obeys its controls in every cycle, for every history of them, and nothing else changes what it holds: with CSROp.NONE, a write stores into the addressed register (register 0 only if allow_zero_wr is set; any other register whatever allow_zero_wr is) and a read shows the addressed register, including what is being written to it, from the next cycle until the next read or CSR operation; a CSR read shows the addressed CSR in the next cycle and a CSR write stores its implemented bits. mstatus, mie and mip are always visible on their own outputs; ENTER_INT moves mie to mpie and clears mie, LEAVE_INT moves mpie back and sets mpie. The program counter holds, increments or loads as told, from 0 after reset.",
  ["inputs", "histories"], "all control words, addresses, data and histories of them",
  "No test drives the data path except through the shipped microcode.",
  ["datapath.py", "csr.py"],
  [("register file and shared CSR memory", "datapath.py: RegFile, CSRFile, DataPath"), ("program counter", "datapath.py: ProgramCounter")],
  [("mie/mpie", "mstatus stack", "datapath.py: CSRFile")],
  observe=("interface of sentinel.datapath.DataPath",))
p("C27", "The decoder splits every word correctly, whatever came before",
  "After do_decode is pulsed on any 32-bit word, Decode() shows the word's rs1, rs2 and rd and, for formats with one, its sign-extended immediate, from the next cycle until another decode; opcode and src_a_unreg always show the input word's fields. In the next cycle (the one after it for CSR instructions) exception says whether the word is not a legal instruction (cause 2) or is EBREAK (3) or ECALL (11), and for a legal access to an implemented CSR csr_encoding is that CSR's number in the cycle after the decode. Earlier decodes, other words on the input afterwards and resets have no effect on this.",
  ["inputs", "histories"], "all 2^32 words and all sequences of decodes and pauses",
  "Tests decode only words of the programs they happen to run.",
  ["decode.py", "insn.py"],
  [("legality checks", "decode.py: Decode.elaborate"), ("two-cycle CSR decode", "decode.py: csr handling")],
  observe=("interface of sentinel.decode.Decode",))
p("C28", "Operand latches and lane aligners select exactly what they are told",
  "ASrcMux and BSrcMux take, when latch is high, the selected operand (general register, immediate, 0, 4, -1, 31, ALU output; register, pc*4, immediate, 1, load data, CSR immediate, CSR, mcause) and show it from the next cycle until they latch again. For aligned accesses, load data is the byte or halfword the address picks, sign- or zero-extended, or the word. AddressAlign requests, while mem_req is high, the pc with all lanes for a fetch, else the address's word with exactly the lanes of the access, and WriteDataAlign puts the byte, halfword or word on those lanes.",
  ["inputs", "histories"], "all selections, sizes, addresses, data and histories of latches",
  "No test drives these units except through the shipped microcode.",
  ["datapath.py", "align.py", "top.py", "alu.py"],
  [("operand latches", "alu.py: ASrcMux, BSrcMux"), ("lane selection", "align.py: AddressAlign, ReadDataAlign, WriteDataAlign")],
  observe=("interfaces of ASrcMux, BSrcMux, AddressAlign, ReadDataAlign, WriteDataAlign",))
p("C29", "The exception router flags exactly what it is asked about",
  "ExceptionRouter() raises exception, in the cycle it is asked, if and only if: asked about the decoder, an enabled external interrupt is pending (mstatus.MIE, mie.MEIE and mip.MEIP all set) or the decoder reports an exception; asked about a jump, bit 1 of the target is set; asked about a load or store, the address is not aligned to the access size. From the next cycle until it is asked again, mcause is 0x8000000B for the interrupt (which wins over the decoder), else the decoder's cause, 0 for a jump, 4 for a load or 6 for a store. What was asked before does not matter.",
  ["inputs", "histories"], "all inputs in every reachable state",
  "No test drives the router except through the shipped microcode, which clears its history between questions.",
  ["exception.py"],
  [("exception selection and cause latch", "exception.py: ExceptionRouter")],
  observe=("interface of sentinel.exception.ExceptionRouter",))
EXW = "No test instantiates the peripherals at all: they are only ever built into bitstreams."
p("C30", "The example SoC's memory returns the bytes last written, at every access",
  "WBMemory() acknowledges every Wishbone access exactly once, in the cycle after it appears, and nothing else. A read returns, with its acknowledge, for each byte of the addressed word the value last written to that byte with its select line set, or its initial value; a write changes exactly the selected bytes of the addressed word. Cycles without both CYC and STB change nothing, and reads never do.",
  ["inputs", "histories"], "all histories of accesses, selects, pauses and resets within the memory's addresses",
  EXW, ["examples/attosoc.py"], [("memory behind Wishbone", "attosoc.py: WBMemory")],
  observe=("bus of examples.attosoc.WBMemory",))
p("C31", "The example SoC's GPIO and timer do what their registers say, losing no IRQ",
  "On either bus, writes to the LED, output and output-enable registers put exactly the written value on those pins (on Wishbone only when SEL is set), reads of the pin register return the pins, and nothing else changes an output. The timer raises its IRQ whenever bit 14 of its free-running 15-bit count is set; reading its register returns whether it was set and, if so, clears it without disturbing the count's other bits; an IRQ that rises while a read is under way, and so was not reported by it, stays raised.",
  ["inputs", "histories", "schedules"], "all histories of accesses, pin changes, pauses and resets relative to the count",
  EXW, ["examples/attosoc.py"], [("registers", "attosoc.py: WBLeds, CSRLeds"), ("count and IRQ clear", "attosoc.py: WBTimer, CSRTimer")],
  [("prescalar", "15-bit count", "attosoc.py: WBTimer")], observe=("ports of WBLeds, CSRLeds, WBTimer, CSRTimer",))
p("C32", "The example SoC's UART transfers every byte and loses no interrupt",
  "A byte given to the idle UART appears on tx as start bit, eight data bits least significant first and stop bit, each `divisor` cycles long, and tx is high otherwise. A frame of that shape on rx makes rx_rdy rise by the end of its stop bit with exactly its byte, and rx_err if and only if the stop bit was low; rx_ack clears rx_rdy; a frame that begins while a byte is still waiting sets rx_ovf, nothing else does. On either bus the IRQ register's bits rise once for every byte received and every byte sent, stay until read, are never lost to a read that did not report them, and irq is their OR.",
  ["inputs", "histories", "schedules"], "all bytes, frame spacings, acknowledge times and register accesses in every cycle",
  EXW, ["examples/attosoc.py"], [("shift registers and sampling", "attosoc.py: UART"), ("IRQ bits", "attosoc.py: WBSerial, CSRSerial")],
  observe=("ports of UART, WBSerial, CSRSerial",))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
