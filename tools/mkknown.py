"""Writes known_findings.json: open findings, and the repaired ones with their commits."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# start of the commit subject -> (property, what failed)
FIXED = [
    ('refuse relative branches from addresses not aligned', 'C07', 'branches of MIPS32, PowerPC and Thumb from addresses not aligned for their field went to another target'),
    ('accept MIPS32 jumps to numbers above', 'C06', 'j and jal refused a target above 0x0FFFFFFF written as a number, which they accept as a label'),
    ('relocate every bit field', 'C39', 'of several relocated bit fields in one word only the last one was passed to relocate'),
    ('accept letters in suffixed hexadecimal', 'C02', 'suffixed hexadecimal numbers with letters (0FFh, 0dh) were taken as labels'),
    ('pad the last bounded origin', 'C09', 'the last bounded origin was not padded when a single byte was missing'),
    ('check goto and upto', 'C10', 'goto and upto accepted targets behind the position after an origin'),
    ('raise on invalid arguments of the log', 'C16', '.log with a bad argument returned without an error'),
    ('do not pad the current bounded origin at the end of an included', 'C14', 'the end of an included file padded the bounded origin of the including one'),
    ('redefining a name', 'C12', '.define of an already defined name redefined the old value instead'),
    ('resolve labels in every copy', 'C13', 'label references in the second and later copies of a repeat block stayed unresolved'),
    ('quoted operator characters', 'C04', "quoted operator characters ('+', '<' ...) were parsed as formulas"),
    ('refuse a source ending inside', 'C16', 'a source ending inside a string or a char was accepted, losing its last statement'),
    ('refuse 6502 branches', 'C21', '6502 branches accepted extra operands'),
    ("accept register names ending with a quote", 'C22', "EX AF,AF' swallowed the rest of the source as a char"),
    ('encode BIT b,(IX+d)', 'C22', 'BIT b,(IX+d) and BIT b,(IY+d) were encoded with undocumented opcodes'),
    ('do not take (IX+d)', 'C22', '(IX+d) and (IY+d) matched absolute address forms'),
    ('emit both operands of LD (IX+d),n', 'C22', 'LD (IX+d),n lost one of its operands'),
    ('accept math formulas starting with a negative', 'C03', '-5+3 was not parsed as a formula'),
    ('check the range of labels converted', 'C04', 'labels wider than the field of db_to_ascii / dw_to_ascii overwrote the following bytes'),
    ('do not replace names inside of strings', 'C12', 'define and macro argument names were replaced inside quoted text'),
    ('refuse to link when a macro', 'C13', 'a repeat or macro block without an end was accepted'),
    ('restore the body of a macro', 'C11', 'a failed macro call left the body of the macro with the arguments of that call'),
    ('refuse negative sizes of ram', 'C13', '.ram and .repeat took negative sizes as huge numbers'),
    ('store the NES bank counts', 'C31', 'the PRG and CHR bank counts were stored at offsets 5 and 6 of the iNES header'),
    ('checksum Genesis images', 'C32', 'Genesis images with an odd number of bytes crashed the checksum'),
    ('write the PS-X EXE stack', 'C32', 'the stack pointer of the PS-X header was stored at the wrong offset'),
    ('exclude the global checksum', 'C30', 'the Game Boy global checksum included its own old bytes'),
    ('accept the Game Boy header at the start', 'C30', '.cartridge was refused at the start of a bounded origin at $100'),
    ('report the file name of malformed', 'C16', 'errors of malformed labels and open quotes did not name the file'),
    ('refuse a label without a name', 'C16', 'a label without a name failed without line and file'),
    ('report the statement of macro calls', 'C16', 'a macro call with missing arguments failed without line and file'),
    ('do not silently ignore unknown labels when linking to ELF', 'C19', 'a label without a value was silently left zero in ELF output'),
    ('do not accumulate the header of previous', 'C19', 'linking twice with one ELF linker produced two headers'),
    ('start the ELF symbol table', 'C19', 'the ELF symbol table lacked the undefined symbol at index 0'),
    ('compute the value of ELF symbols', 'C19', 'the value of ELF symbols was not relative to their section'),
    ('export labels defined before the first', 'C19', 'ELF output failed for labels defined before the first section'),
    ('forget the relocations of a refused', 'C19', 'a refused ELF link left its relocations to the next link'),
    ('accept the Game Boy header after', 'C30', '.cartridge was refused after a bounded origin ending at 0xFF'),
    ('write the whole header of empty', 'C32', 'the header of an empty PS-X program was cut to 124 bytes'),
    ('match operand patterns as whole', 'C23', 'operand patterns matched their single letters too: LD (0),A was encoded as LD ($FF00+C),A and BIT 0,(H) as BIT 0,(HL)'),
    ('accept SP plus displacement only', 'C23', 'LD with any destination and SP+n was encoded as LD HL,SP+n'),
    ('pass the arguments of the MIPS32', 'C25', 'the operands of add, sub, and other three register MIPS32 instructions were swapped'),
    ('encode MIPS32 sltu and sltiu', 'C25', 'sltu and sltiu had the opcodes of other instructions'),
    ('accept the whole unsigned range in MIPS32', 'C25', 'andi, ori and xori refused immediates above 32767'),
    ('link MIPS32 jalr', 'C25', 'jalr did not link to $ra'),
    ('encode MIPS32 break', 'C25', 'break and syscall were encoded wrongly'),
    ('refuse MIPS32 branch targets', 'C25', 'branch displacements that are not words were silently truncated'),
    ('scale the immediates of Thumb ADD', 'C26', 'ADD with PC or SP stored the immediate unscaled'),
    ('use the whole offset of Thumb loads', 'C26', 'loads from PC and SP refused or cut offsets above 255'),
    ('encode the Thumb loads and stores', 'C26', 'several Thumb loads and stores had the opcode or the scale of another one'),
    ('refuse odd Thumb branch', 'C26', 'odd branch displacements were truncated and BL 0 was taken for a label'),
    ('accept upper case registers in Thumb', 'C26', 'PUSH refused upper case registers'),
    ('treat labels relative to address 0', 'C07', 'a reference relative to the program counter was stored as absolute when the counter was 0'),
    ('accept r0 as PowerPC', 'C28', 'r0 was refused as a general register'),
    ('use the own opcode of every form', 'C28', 'all forms of a PowerPC mnemonic were encoded with the opcode of the first one'),
    ('encode PowerPC branch targets', 'C28', 'branch targets were stored four times too large or refused'),
    ('refuse PowerPC mcrfs', 'C28', 'mcrfs accepted fields above 7, changing neighbouring bits'),
    ('do not let unsupported PowerPC forms', 'C28', 'a form with an unsupported operand type stopped the other forms of its mnemonic from being tried'),
    ('resolve every label of an instruction', 'C06', 'of two labels in bit fields of the same word only the last one was resolved'),
    ('encode the memory operand of 8086', 'C24', 'POP and MOV immediate to memory lost the ModR/M byte'),
    ('resolve 8086 labels after', 'C24', 'labels of displacements, and of immediates after a memory operand, were stored over the ModR/M byte'),
    ('encode 8086 [BP]', 'C24', '[BP] was encoded as a direct address without the address'),
    ('accept 16 bit addresses of 8086', 'C24', 'MOV AL,[address] and MOV [address],AL refused addresses above 255'),
    ('refuse extra operands of 8086', 'C24', 'extra operands were ignored (SHL BX,5 was encoded as SHL BX,1)'),
    ('accept segment:offset', 'C24', 'far CALL and JMP were refused by the tokenizer'),
    ('refuse extra operands of 68000', 'C27', 'extra operands were ignored'),
    ('refuse 68000 byte accesses', 'C27', 'byte accesses to address registers (move.b a0,d0) were encoded'),
    ('accept upper case 68000 index', 'C27', 'upper case index registers were refused'),
    ('accept dbt.w and dbf.w', 'C27', 'dbt.w and dbf.w were unknown'),
    ('refuse short 68000 branches', 'C27', 'a short branch to the next instruction was encoded with displacement 0, which means a word displacement follows'),
    ('accept 6502 expressions on labels', 'C03', 'a 6502 operand LDA x+y with x already defined and y defined later was refused'),
    ('store wide text in the byte', 'C04', 'quoted text in .dw and .dd was little endian on big endian targets'),
    ('accept quoted numbers in .dw_to', 'C04', '.dw_to_ascii and .dw_to_asciiz crashed on every quoted number'),
    ('store the 32 bit targets of x86 jumps', 'C29', '32 bit relative jump targets given as labels were stored in one byte'),
    ('do not lose or ignore operands of x86', 'C29', 'x86 immediate and displacement operands were lost, and operands without an encoding ignored'),
    ('emit all opcode bytes of x86', 'C29', 'x86 instructions without operands lost bytes of their multi-byte opcodes'),
    ('encode the opcode extensions of x86', 'C29', 'the /digit opcode extension of x86 instructions was not encoded'),
    ('prefix x86 instructions by the size', 'C29', 'the operand size prefix of x86 instructions was chosen regardless of the code size'),
    ('encode x86 memory operands with the address size', 'C29', 'x86 memory operands were encoded without regard to the address size'),
    ('reserve RAM in every copy', 'C13', 'RAM reserved in a repeat block moved the location counter only once, whatever the count'),
    ('prefix x86 instructions without operands by', 'C29', 'x86 string, flag and conversion instructions had wrong or no size prefixes'),
]
FINDINGS = [
    {'property': 'C24', 'mechanism': 'enc/AAM/operand byte', 'status': 'open', 'always': True,
     'what': 'AAM without operand is encoded as D4 alone, without the byte 0A the processor reads (fixed by tests/test_intel8086.py)'},
    {'property': 'C24', 'mechanism': 'enc/AAM 10/operand byte', 'status': 'open', 'always': True,
     'what': 'AAM 10 is encoded as D4 alone (fixed by tests/test_intel8086.py)'},
    {'property': 'C24', 'mechanism': 'enc/AAD/operand byte', 'status': 'open', 'always': True,
     'what': 'AAD without operand is encoded as D5 alone, without the byte 0A the processor reads (fixed by tests/test_intel8086.py)'},
    {'property': 'C24', 'mechanism': 'enc/AAD 10/operand byte', 'status': 'open', 'always': True,
     'what': 'AAD 10 is encoded as D5 alone (fixed by tests/test_intel8086.py)'},
    {'property': 'C26', 'mechanism': 'enc/LDRB [r#]/divided by four', 'status': 'open', 'always': True,
     'what': 'LDRB Rd,[Rb,#imm] stores imm/4 instead of imm (LDRB r0,[r1,#8] gives 0x7888, not 0x7A08); the wrong bytes are fixed by tests/test_thumb.py'},
    {'property': 'C26', 'mechanism': 'enc/PUSH lr/POP opcode', 'status': 'open', 'always': True,
     'what': 'PUSH {..., lr} sets bit 11 instead of bit 8 and so emits a POP (0xBC..); the wrong bytes are fixed by tests/test_thumb.py'},
    {'property': 'C23', 'mechanism': 'enc/illegal/BRA/accepted', 'status': 'open', 'always': True,
     'what': 'the mnemonic BRA, which the LR35902 does not have, is accepted and encoded as RRA (1F)'},
    {'property': 'C18', 'mechanism': 'command/necro_mips32', 'status': 'open', 'always': True,
     'what': 'the installed command necro_mips32 points to necroassembler.cpu.thumb:AssemblerMIPS32, which does not exist (setup.py, the module is necroassembler.cpu.mips32)'},
]
try:
    import sys
    sys.path.insert(0, HERE + '/tools')
    import known_more
    FIXED += known_more.FIXED
    FINDINGS += known_more.FINDINGS
except ImportError:
    pass
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--abbrev=10']).decode().splitlines()
fixed = []
left = [l for l in log if ' fix: ' in l]
for start, prop, what in FIXED:
    hit = [l for l in left if l.split(' fix: ', 1)[1].startswith(start)]
    assert len(hit) == 1, (start, hit)
    left.remove(hit[0])
    fixed.append('fixed: property=%s %s %s' % (prop, hit[0].split()[0], what))
if left:
    print('NOT RECORDED:', *left, sep='\n  ')
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    f.write('\n')
