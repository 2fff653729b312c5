"""Single source of properties.jsonl and MANIFEST.json (tools/mkmeta.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe or []))


TRUST = ' Trusts clang\'s AST, the evaluator in sa/engine.py and the library models in sa/stdmodel.py; obligations the analysis cannot decide are counted as undecided and not claimed.'

prop('C01', 'Conditional jumps follow the documented flag conditions',
     'Every conditional jump transfers control to its target exactly when the documented predicate over the sign, zero, carry and overflow flags holds, and otherwise falls through to the next instruction. '
     'This is true for every encoding of the jump target (register, immediate, memory, offset). LOOP decrements its register and jumps while the result is not zero.',
     ['programs', 'inputs'], 'all conditional jump opcodes x all target encodings x all 16 flag combinations x all register contents',
     'The tests run a few short loops; most flag combinations (overflow with zero, carry without sign) and most target encodings are never reached.',
     ['src/t86/instruction.cpp', 'src/t86/instruction.h'],
     [('COND_JMP_INS_IMPL predicates', 'src/t86/instruction.cpp:440'), ('ConditionalJumpInstruction', 'src/t86/instruction.h')],
     'guarded-effect summaries (interprocedural value numbering) of each jump, truth table over the 16 flag combinations',
     'Complete over flag combinations and target encodings: the summary of operands()/execute()/retire() is composed symbolically and its guard evaluated on all 16 flag values.' + TRUST)

prop('C02', 'Arithmetic and logic instructions compute documented results and flags',
     'Every integer, floating point, comparison, conversion and shift instruction writes to its destination the 64-bit two\'s-complement (or IEEE double) result of the documented operation on its operands and sets the sign, zero, carry and overflow flags to the documented values for those operands. '
     'This is true for all operand values, all operand encodings and for two- and three-operand forms, and nothing besides the destination and the flags changes.',
     ['programs', 'inputs'], 'all ALU opcodes x operand encodings x all 64-bit operand values, excluding division by zero and shift counts outside 0..63',
     'Tests use small operand values; carry/overflow boundaries (minimum, maximum, exactly-zero results) and most operand encodings are never exercised.',
     ['src/t86/cpu/alu.cpp', 'src/t86/instruction.cpp', 'src/t86/instruction.h'],
     [('Alu::add, subtract, multiply, ...', 'src/t86/cpu/alu.cpp'), ('BinaryArithmeticInstruction::execute', 'src/t86/instruction.cpp:192')],
     'value-numbering summaries of result and flag terms, compared with the ISA definition over boundary grids and exhaustively at a reduced word width',
     'The terms extracted from the source are compared with an independent definition of the ISA on a boundary-value grid of 64-bit words and exhaustively for the same terms read at word width 5; a difference confined to values outside both would be missed.' + TRUST)

prop('C03', 'Stack, call, I/O and control instructions have exactly their effects',
     'PUSH, POP, CALL, RET, JMP, HALT, BREAK, BKPT, PUTCHAR, PUTNUM, GETCHAR and the float variants change the stack pointer, base memory, program counter, registers, output and machine state exactly as documented. '
     'Values pushed are stored at the decremented stack pointer, POP and RET read from the stack pointer before incrementing it, CALL stores the address of the following instruction, and no other register or memory cell changes.',
     ['programs', 'inputs'], 'all such opcodes x operand encodings x all register and memory contents',
     'Tests check final output of a handful of programs; instructions with unusual operand encodings or values beyond 32 bits are not executed.',
     ['src/t86/instruction.cpp', 'src/t86/instruction.h'],
     [('PUSH/POP/CALL/RET execute and retire', 'src/t86/instruction.cpp')],
     'guarded-effect summaries of each instruction compared with its ISA definition',
     'Every instruction class and operand encoding found in the source is summarised and compared with the ISA definition, frame condition included.' + TRUST)

prop('C04', 'Instructions declare exactly the registers and memory they use',
     'For each instruction and operand encoding, every register or memory cell whose value it needs is requested as an input before it runs and every register, flag and memory cell it changes is announced as an output, so out-of-order execution never reads or writes state the scheduler does not track. '
     'An announced memory output is always given its address and value and written exactly once.',
     ['programs', 'schedules'], 'all instruction classes x operand encodings; consequence for all out-of-order schedules',
     'A missing declaration is visible only when another in-flight instruction touches the same register in a particular window; the tests run almost in order.',
     ['src/t86/instruction.h', 'src/t86/instruction.cpp'],
     [('operands(), produces()', 'src/t86/instruction.h'), ('ReservationStation::add renames products', 'src/t86/cpu/reservation_station.cpp')],
     'set agreement between declared and used/produced state, from effect summaries of operands(), produces(), execute() and retire()',
     'Set equality between what each instruction declares and what its execute/retire summaries touch; decided for every class and operand encoding.' + TRUST)

prop('C05', 'Every addressing mode denotes its documented effective address',
     'MOV and LEA, and every instruction accepting a memory operand, compute base + displacement + index * scale exactly as written in the operand, for loads and for stores, and copy the full 64-bit value between the two sides unchanged. '
     'The address depends only on the registers and constants named in the operand, each used in its own role.',
     ['programs', 'inputs'], 'all source/destination operand encodings x all register contents, displacements and scales',
     'Tests use few addressing modes with values where swapped roles often coincide.',
     ['src/t86/instruction.cpp', 'src/t86/instruction.h', 'src/t86/cpu/reservation_station.cpp'],
     [('MOV/LEA operands and execute', 'src/t86/instruction.cpp'), ('Operand::supply', 'src/t86/instruction.h')],
     'value-numbering summaries of address terms compared with the ISA definition on boundary grids',
     'Each addressing mode accepted by a MOV/LEA constructor is composed symbolically and compared with its definition as polynomial terms.' + TRUST)
