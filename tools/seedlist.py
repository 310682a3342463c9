"""The planted bugs: each breaks one property, compiles, passes the tests of the repository."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


TOY = '''
from necroassembler import Assembler, opcode
from necroassembler.utils import pack_byte, pack_le16u
class T(Assembler):
    hex_prefixes = ('$', '0x')
    @opcode('ONE')
    def one(self, i):
        return pack_byte(0xA0, self.parse_integer_or_label(i.tokens[1], size=1, bits_size=8, offset=1))
    @opcode('TWO')
    def two(self, i):
        return b'\\\\xB0' + pack_le16u(self.parse_integer_or_label(i.tokens[1], size=2, bits_size=16, offset=1))
    @opcode('BRA')
    def bra(self, i):
        return b'\\\\xC0' + pack_byte(self.parse_integer_or_label(i.tokens[1], size=1, bits_size=8, offset=1, relative=self.pc + 2))
    @opcode('NOP')
    def nop(self, i):
        return b'\\\\xEA'
def run(src, cls=T):
    a = cls()
    a.assemble(src)
    a.link()
    return bytes(a.assembled_bytes)
'''.replace('\\\\', '\\')

seed('m01', 'C11', [('macros.py', "            macro_dict = {}\n            for macro_arg_index, macro_arg in enumerate(macro_args):\n                macro_dict[macro_arg] = args[macro_arg_index]\n",
                     "            for macro_arg_index, macro_arg in enumerate(macro_args):\n                substitute_with_dict(\n                    instr.tokens, {macro_arg: args[macro_arg_index]}, 0)\n"),
                    ('macros.py', "            substitute_with_dict(instr.tokens, macro_dict, 0)\n", "")],
     'a macro call with an argument spelled like the name of a later argument of the macro',
     'arguments are replaced one after the other instead of simultaneously, so the text of a call argument is replaced again',
     TOY + '''
src = '.org 0x40\\nb:\\n.org 0x80\\n.macro M a b\\nONE a\\nONE b\\n.endmacro\\nM b 7\\n'
assert run(src) == bytes((0xA0, 0x40, 0xA0, 7)), run(src)
''')

seed('m02', 'C12', [('utils.py', "        if name in _dict:\n            tokens[i] = _dict[name]\n            continue\n", "        if name in _dict:\n            name = _dict[name]\n")],
     'a define whose value is or contains the name of another define',
     'the value of a define is searched for names again, so names are replaced twice',
     TOY + '''
src = '.define B 5\\nB: \\n'
src = '.define A B+1\\n.define B 5\\n.org 9\\nONE A\\n'
src = '.org 9\\nB:\\n.define A B+1\\n.define B 5\\nONE A\\n'
assert run(src) == bytes((0xA0, 10)), run(src)
''')

seed('m03', 'C03', [('assembler.py', "                shifted_value |= ((value >> (8 * low_counter))\n                                  & 0xFF) << (8 * low_counter)\n",
                     "                shifted_value = ((value >> (8 * low_counter))\n                                 & 0xFF) << (8 * low_counter)\n")],
     'the byte selection prefix < repeated on a value whose low byte is not zero',
     '<< keeps only the second byte instead of the two low bytes',
     TOY + '''
assert run('TWO <<0x12345\\n') == b'\\xB0\\x45\\x23'
assert run('TWO <0x12345\\n') == b'\\xB0\\x45\\x00'
''')

seed('m04', 'C04', [('assembler.py', "    def directive_dw(self, instr):\n        for token in instr.tokens[1:]:\n            blob = b''\n",
                     "    def directive_dw(self, instr):\n        data = b''\n        for token in instr.tokens[1:]:\n"),
                    ('assembler.py', "                if self.big_endian:\n                    blob = pack_be16u(value)\n                else:\n                    blob = pack_le16u(value)\n            self.append_assembled_bytes(blob)\n",
                     "                if self.big_endian:\n                    blob = pack_be16u(value)\n                else:\n                    blob = pack_le16u(value)\n            data += blob\n        self.append_assembled_bytes(data)\n")],
     'a 16 bit data directive with a label that is not its first operand',
     'labels of a .dw list are all stored over the first value',
     TOY + '''
r = run('.org 0x1234\\na:\\n.dw 1, a, 2\\n')
assert r == b'\\x01\\x00\\x34\\x12\\x02\\x00', r
''')

seed('m05', 'C10', [('assembler.py', "        mod = (self.current_org + self.org_counter) % size\n", "        mod = self.org_counter % size\n")],
     'an .align after an origin that is not a multiple of the alignment',
     '.align aligns the distance from the origin instead of the address',
     TOY + '''
r = run('.org 0x1003\\nNOP\\n.align 8\\nNOP\\n')
assert r == b'\\xEA\\x00\\x00\\x00\\x00\\xEA', r
''')

seed('m06', 'C09', [('assembler.py', "            if self.current_org > previous_org_end:\n", "            if self.current_org >= previous_org_end:\n"),
                    ('assembler.py', "            elif self.current_org <= previous_org_end and self.current_org > previous_org:\n", "            elif self.current_org < previous_org_end and self.current_org > previous_org:\n")],
     'a bounded origin followed by an origin starting exactly at its last address',
     'one byte too many is emitted, so everything after it is displaced by one',
     TOY + '''
r = run('.org 0x10 0x17\\nNOP\\n.org 0x17\\nNOP\\n')
assert r == b'\\xEA' + bytes(6) + b'\\xEA', r
''')

seed('m07', 'C16', [('tokenizer.py', "            if byte == '\\n':\n                self.line += 1\n", "            if byte == '\\n' and self.state != self._state_string:\n                self.line += 1\n")],
     'a quoted text spanning several lines before the faulty statement',
     'newlines inside of strings are not counted, so errors name a line before the faulty one',
     TOY + '''
try:
    run('NOP\\n.db "a\\nb\\nc"\\nNOP\\nBAD 1\\n')
except Exception as e:
    assert 'line 6' in str(e), e
else:
    raise SystemExit('accepted')
''')

seed('m08', 'C08', [('assembler.py', "            if not is_relative and true_address < 0:\n", "            if not is_relative and true_address < -(1 << (total_bits - 1)):\n")],
     'a label expression with a negative value in an absolute operand',
     'negative label expressions are wrapped into absolute fields instead of being refused',
     TOY + '''
assert run('.org 9\\nx:\\nONE x-9\\n') == b'\\xA0\\x00'
try:
    r = run('.org 9\\nx:\\nONE x-10\\n')
except Exception:
    pass
else:
    raise SystemExit(repr(r))
''')

seed('m09', 'C19', [('linker.py', "            section_data['elf_section_index'] = section_index\n            sections += self._build_section(section_data)\n", "            section_data['elf_section_index'] = section_index\n            if section_data['size'] == 0:\n                continue\n            sections += self._build_section(section_data)\n")],
     'a program with a section that emits no bytes (RAM only) linked to ELF',
     'the header of an empty section is missing while it is still counted, so the following headers and the image are displaced',
     TOY + '''
import struct
from necroassembler.linker import ELF
a = T()
a.assemble('.section code RX\\nNOP\\n.section bss RW\\n.ram 16\\n.section data RW\\n.db 1,2,3\\n')
a.link(ELF(32, False, 1, 3))
b = bytes(a.assembled_bytes)
shoff, = struct.unpack_from('<I', b, 32)
num, = struct.unpack_from('<H', b, 48)
assert num == 7, num
for i in range(num):
    h = struct.unpack_from('<10I', b, shoff + 40 * i)
    if i == 3:
        assert b[h[4]:h[4] + h[5]] == b'\\x01\\x02\\x03', h
    if i == 4:
        assert h[1] == 3 and b'.shstrtab' in b[h[4]:h[4] + h[5]], h
''')

seed('m10', 'C15', [('assembler.py', "        self.defines = self.defines.copy()\n", "        self.defines = self.defines if self.defines else {}\n")],
     'two instances of a platform with predefined names in one process, a define in the first',
     'a define made by one instance is visible in (and changes the output of) the instances created later',
     '''
from necroassembler.platforms.nes import AssemblerNES
a = AssemblerNES()
a.assemble('.define PPUMASK $1234\\n.define mine 7\\n')
b = AssemblerNES()
b.assemble('LDA PPUMASK\\n')
b.link()
assert bytes(b.assembled_bytes) == b'\\xAD\\x01\\x20', bytes(b.assembled_bytes)
''')

seed('m11', 'C17', [('assembler.py', "        for _pass in self.post_link_passes:\n            if hasattr(_pass, '__self__') and _pass.__self__ == self:\n                _pass()\n",
                     "        for _pass in self.post_link_passes:\n            if hasattr(_pass, '__self__'):\n                _pass()\n")],
     'a link pass that is a bound method of another object',
     'passes bound to other objects are called without the assembler',
     TOY + '''
class Other:
    seen = None
    def fix(self, asm):
        self.seen = asm
        asm.assembled_bytes[0] = 0x55
o = Other()
a = T()
a.post_link_passes.append(o.fix)
a.assemble('NOP\\n')
a.link()
assert o.seen is a and bytes(a.assembled_bytes) == b'\\x55'
''')

seed('m12', 'C30', [('platforms/gameboy.py', "        self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF\n", "        self.assembled_bytes[0x14e] = min(global_checksum >> 8, 0xFF)\n")],
     'a cartridge whose bytes sum to 0x10000 or more',
     'the high byte of the global checksum saturates instead of wrapping',
     '''
from necroassembler.platforms.gameboy import AssemblerGameboy
a = AssemblerGameboy()
a.assemble('.org 0 0xFF\\n.org 0x100\\n.cartridge\\n.fill 700, 0xFE\\n'.replace('0x', '$'))
a.link()
b = bytes(a.assembled_bytes)
s = sum(b) - b[0x14e] - b[0x14f]
assert s > 0xFFFF
assert b[0x14e] == s >> 8 & 255 and b[0x14f] == s & 255, (hex(s), b[0x14e:0x150])
''')

seed('m13', 'C31', [('platforms/nes.py', "            if 0x0000 <= address <= 0x7FF:\n", "            if 0x0000 < address <= 0x7FF:\n")],
     'a label at RAM address 0',
     'the label of zero page address 0 is missing in the RAM symbol file',
     '''
from necroassembler.platforms import nes
with tempfile.TemporaryDirectory() as d:
    with open(d + '/a.S', 'w') as f:
        f.write('.org 0\\nzero: .ram 1\\none: .ram 1\\n.org $8000\\nstart: NOP\\n')
    sys.argv = ['nes', d + '/a.S', d + '/a.nes']
    nes.main()
    got = open(d + '/a.nes.ram.nl').read()
assert '$0000#zero#' in got and '$0001#one#' in got, got
''')


seed('m14', 'C01', [('tokenizer.py', "        code += '\\n'\n", "        code = code.replace('\\\\\\n', ' ') + '\\n'\n")],
     'a comment that ends with a backslash',
     'a backslash at the end of a line joins it with the next one, even at the end of a comment, which swallows a statement',
     TOY + '''
assert run('NOP ; C:\\\\x\\nNOP\\n') == b'\\xEA\\xEA'
assert run('NOP ; in C:\\\\\\nNOP\\n') == b'\\xEA\\xEA'
''')

seed('m15', 'C07', [('cpu/x86.py', "                relative=assembler.pc + len(base) + 2,\n", "                relative=assembler.pc + 3,\n")],
     'a near conditional x86 jump in 16 bit code',
     'near conditional jumps to labels miss their target by one byte',
     '''
from necroassembler.cpu.x86 import AssemblerX86
def run(src):
    a = AssemblerX86()
    a.assemble('.bits 16\\n' + src + ' x\\n.fill 8\\nx:\\n')
    a.link()
    return bytes(a.assembled_bytes)[:-8]
assert run('call') == bytes((0xe8, 8, 0)), run('call')
assert run('jo')[-2:] == bytes((8, 0)), run('jo')
''')

seed('m16', 'C02', [('assembler.py', "            return int(token), True\n", "            return int(token, 0), True\n")],
     'a decimal literal with leading zeros',
     'decimal literals with leading zeros are taken as names of labels',
     TOY + '''
assert run('ONE 7\\n') == b'\\xA0\\x07'
assert run('ONE 007\\n') == b'\\xA0\\x07'
''')

seed('m17', 'C05', [('assembler.py', "                blob = bytes([self.fill_value] * ((self.current_org_end + 1) -\n                                                  (self.current_org + self.org_counter)))\n                self.append_assembled_bytes(blob)\n",
                     "                blob = bytes([self.fill_value] * ((self.current_org_end + 1) -\n                                                  (self.current_org + self.org_counter)))\n                self.assembled_bytes += blob\n")],
     'a second source assembled after one that ends in a bounded origin, with labels before its first origin',
     'the padding at the end of a source does not advance the location counter',
     TOY + '''
a = T()
a.assemble('.org 0x100 0x10F\\nNOP\\n')
a.assemble('x: TWO x\\n')
a.link()
assert bytes(a.assembled_bytes)[16:] == b'\\xB0\\x10\\x01', bytes(a.assembled_bytes)
''')

seed('m18', 'C06', [('assembler.py', "        # label ?\n        if value is None:\n", "        # label ?\n        if value is None:\n            if relative is None and hook is None and alignment == 1 and label in self.labels:\n                address = self.get_label_absolute_address(self.labels[label])\n                if in_bit_range(address, bits_size):\n                    return filter(address) if filter else address\n")],
     'an operand with a filter (as MIPS jumps have) that names a label defined before it',
     'labels already defined are resolved at once, and the filter of the operand is applied to a value the instruction scales itself',
     '''
from necroassembler.cpu.mips32 import AssemblerMIPS32
def run(src):
    a = AssemblerMIPS32()
    a.assemble(src)
    a.link()
    return bytes(a.assembled_bytes)
assert run('.org 0x1230\\nx:\\nj x\\n') == run('.org 0x1230\\nj x\\n.org 0x1230\\nx:\\n') == bytes((0x08, 0, 0x04, 0x8C))
''')

seed('m19', 'C13', [('assembler.py', "        if self.repeat is not None:\n            raise UnsupportedNestedRepeat(instr)\n", "        if self.repeat is not None and self.repeat[1] != len(self.assembled_bytes):\n            raise UnsupportedNestedRepeat(instr)\n")],
     'a repeat directive that directly follows another one',
     'a repeat block that starts at the first byte of another one replaces it instead of being refused',
     TOY + '''
for src in ('.repeat 2\\nNOP\\n.repeat 3\\nNOP\\n.endrepeat\\n.endrepeat\\n', '.repeat 2\\n.repeat 3\\nNOP\\n.endrepeat\\n'):
    try:
        r = run(src)
    except Exception:
        pass
    else:
        raise SystemExit(repr(r))
''')

seed('m20', 'C14', [('assembler.py', "                for column in row:\n                    value = self.parse_integer(column, 16, False)\n", "                for column in filter(None, row):\n                    value = self.parse_integer(column, 16, False)\n")],
     'a 16 bit CSV file with an empty cell',
     'cells that are not numbers because they are empty are dropped instead of refused',
     TOY + '''
with tempfile.TemporaryDirectory() as d:
    with open(d + '/a.csv', 'w') as f:
        f.write('1,2\\n3,,4\\n')
    try:
        r = run('.inccsv_le16 "%s/a.csv"\\n' % d)
    except Exception:
        pass
    else:
        raise SystemExit(repr(r))
''')

seed('m21', 'C18', [('assembler.py', "        for source in sources:\n            asm.assemble_file(source)\n        asm.link(linker=linker)\n        asm.save(destination)", "        for source in sources:\n            asm.assemble_file(source)\n        asm.save(destination)\n        asm.link(linker=linker)\n        asm.save(destination)")],
     'a source that assembles but fails to link, on the command line',
     'the destination is written before the labels are resolved, so a failed link leaves a file with holes',
     TOY + '''
with tempfile.TemporaryDirectory() as d:
    with open(d + '/a.S', 'w') as f:
        f.write('NOP\\nONE nowhere\\n')
    sys.argv = ['x', d + '/a.S', d + '/a.bin']
    try:
        T.main()
    except Exception:
        pass
    else:
        raise SystemExit('linked')
    assert not os.path.exists(d + '/a.bin')
''')

seed('m22', 'C20', [('assembler.py', "','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))", "','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:current_index + 32]]), current_index))")],
     'the log of a statement that emits more than 32 bytes',
     'the listing of long statements is cut',
     TOY + '''
out = io.StringIO()
with contextlib.redirect_stdout(out):
    run('.log on\\n.fill 40 3\\n')
assert out.getvalue().count('0x03') == 40, out.getvalue()
''')

seed('m23', 'C21', [('cpu/mos6502.py', "        if zero_page is not None and is_zero_page(address):\n            return pack_byte(zero_page, address)\n\n        # normal", "        if zero_page is not None and is_zero_page(self.get_label_absolute_address_by_name(arg.lstrip('<>'))):\n            return pack_byte(zero_page, address)\n\n        # normal")],
     'a 6502 address operand made of the low or high byte of a label above the zero page',
     'the absolute form is chosen although the value of the operand is known and fits the zero page',
     '''
from necroassembler.cpu.mos6502 import AssemblerMOS6502
a = AssemblerMOS6502()
a.assemble('.org $1234\\nx:\\nLDA <x\\nLDA x\\n')
a.link()
assert bytes(a.assembled_bytes) == b'\\xA5\\x34\\xAD\\x34\\x12', bytes(a.assembled_bytes)
''')

seed('m24', 'C22', [('cpu/z80.py', "    ([0x38], 'JR', 'C', 'e'),\n", "    ([0x38], 'JR', 'C', 'n'),\n")],
     'JR C with a negative displacement or a label',
     'the displacement of JR C is encoded as an unsigned byte and labels as their absolute address',
     '''
from necroassembler.cpu.z80 import AssemblerZ80
a = AssemblerZ80()
a.assemble('.org $10\\nx: NOP\\nJR C, x\\nJR C, 5\\n')
a.link()
assert bytes(a.assembled_bytes) == b'\\x00\\x38\\xFD\\x38\\x05', bytes(a.assembled_bytes)
''')

seed('m25', 'C32', [('platforms/genesis.py', "    for i in range(0x200, len(asm.assembled_bytes), 2):\n", "    for i in range(0x200, len(asm.assembled_bytes) & ~3, 2):\n")],
     'a Genesis image whose length is not a multiple of four',
     'the last word of the image is left out of the checksum',
     '''
from necroassembler.platforms import genesis
def image(n):
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/a.S', 'w') as f:
            f.write('.fill %d, 1\\n' % n)
        sys.argv = ['genesis', d + '/a.S', d + '/a.bin']
        genesis.main()
        return open(d + '/a.bin', 'rb').read()
for n in (0x204, 0x206):
    b = image(n)
    assert b[0x18E] << 8 | b[0x18F] == 0x101 * ((n - 0x200) // 2), n
''')

seed('m26', 'C33', [('platforms/sms.py', "        for cell_y in range(0, height // 8):\n            for cell_x in range(0, width // 8):\n                blob = _convert_cell(image, cell_x, cell_y)\n                self.append_assembled_bytes(blob)\n",
                     "        cells = {}\n        for cell_y in range(0, height // 8):\n            for cell_x in range(0, width // 8):\n                box = (cell_x * 8, cell_y * 8, cell_x * 8 + 8, cell_y * 8 + 8)\n                key = sum(image.crop(box).getdata())\n                if key not in cells:\n                    cells[key] = _convert_cell(image, cell_x, cell_y)\n                self.append_assembled_bytes(cells[key])\n")],
     'an image with two different tiles whose pixels have the same sum',
     'converted tiles are cached by a key that is not unique, so a tile is replaced by another one',
     '''
import types
class Im:
    mode, size, width, height = 'P', (16, 8), 16, 8
    def __init__(self, px=None, w=16, h=8):
        self.px, self.width, self.height, self.size = px or {(0, 0): 5, (11, 2): 5}, w, h, (w, h)
    def getpixel(self, xy):
        return self.px.get(tuple(xy), 0)
    def getdata(self):
        return [self.getpixel((x, y)) for y in range(self.height) for x in range(self.width)]
    def tobytes(self):
        return bytes(self.getdata())
    def load(self):
        class A:
            __getitem__ = lambda s, xy: self.getpixel(xy)
        return A()
    def crop(self, b):
        return Im({(x - b[0], y - b[1]): v for (x, y), v in self.px.items() if b[0] <= x < b[2] and b[1] <= y < b[3]} or {(0, 0): 0}, b[2] - b[0], b[3] - b[1])
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    close = lambda self: None
pil = types.ModuleType('PIL')
pil.Image = types.ModuleType('PIL.Image')
pil.Image.open = lambda *a, **k: Im()
sys.modules['PIL'], sys.modules['PIL.Image'] = pil, pil.Image
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.png', 'wb').close()
    a = AssemblerSegaMasterSystem()
    a.assemble('.tiles "%s/a.png"\\n' % d)
    a.link()
b = bytes(a.assembled_bytes)
assert b[:4] == bytes((0x80, 0, 0x80, 0)) and b[32:36] == bytes(4) and b[40:44] == bytes((0x10, 0, 0x10, 0)), b
''')

seed('m27', 'C34', [('assembler.py', "            if data.filter:\n                true_address = data.filter(true_address)\n\n            if data.bits:\n                true_address = pack_bits(0, (data.bits, true_address))\n",
                     "            if data.bits:\n                if data.filter:\n                    true_address = data.filter(true_address)\n                true_address = pack_bits(0, (data.bits, true_address))\n")],
     'a CPU with an operand that declares a filter and fills its whole unit',
     'the filter of operands without bits is not applied to labels',
     '''
from necroassembler import Assembler, opcode
class T(Assembler):
    hex_prefixes = ('0x',)
    @opcode('PTR')
    def ptr(self, i):
        v = self.parse_integer_or_label(i.tokens[1], size=1, bits_size=12, offset=1, filter=lambda x: x >> 4)
        return bytes((0xA0, v >> 4))
def run(src):
    a = T()
    a.assemble(src)
    a.link()
    return bytes(a.assembled_bytes)
assert run('PTR 0x120') == bytes((0xA0, 0x12))
assert run('PTR x\\n.org 0x120\\nx:\\n') == bytes((0xA0, 0x12)), run('PTR x\\n.org 0x120\\nx:\\n')
''')

seed('m28', 'C35', [('statements.py', "        return True, start+index+1\n", "        return True, start+len([x for x in args if x is not None])\n")],
     'an unbound match with a pattern that accepts anything',
     'the place where the rest of the operands begins is wrong',
     '''
from necroassembler import Assembler, opcode
got = []
class T(Assembler):
    @opcode('OP')
    def op(self, i):
        got.append(i.unbound_match('(', None, ')'))
        got.append(i.unbound_match('(', 'x', ')'))
        return b'a'
T().assemble('OP (x) y')
assert got == [(True, 4), (True, 4)], got
''')

seed('m29', 'C36', [('utils.py', "            max_value = pow(2, total_bits)\n            value += max_value\n            if value < max_value // 2:\n                raise InvalidBitRange()\n",
                     "            max_value = pow(2, total_bits)\n            value += max_value\n            if value <= max_value // 2:\n                raise InvalidBitRange()\n")],
     'the most negative value of a bit field',
     'bit packing refuses the most negative value of the field',
     '''
from necroassembler.utils import pack_bits
assert pack_bits(0, ((7, 4), -7)) == 0x90
assert pack_bits(0, ((7, 4), -8)) == 0x80
assert pack_bits(0x8000, ((15, 0), -32767)) == 0x8001
''')

seed('m30', 'C37', [('platforms/gameboy.py', "        'WRAM1': '$D000',\n", "        'WRAM1': '$CFFF',\n")],
     'a Game Boy program using the second bank of work RAM by its name',
     'WRAM1 stands for the last byte of the first bank',
     '''
from necroassembler.platforms.gameboy import AssemblerGameboy
a = AssemblerGameboy()
a.assemble('LD HL, WRAM0\\nLD HL, WRAM1\\n')
assert bytes(a.assembled_bytes) == bytes((0x21, 0, 0xC0, 0x21, 0, 0xD0)), a.assembled_bytes
''')

seed('m31', 'C38', [('assembler.py', "        mod = (self.current_org + self.org_counter) % size\n        if mod != 0:\n            blob = bytes([self.fill_value]) * (size - mod)\n            self.append_assembled_bytes(blob)\n",
                     "        while (self.current_org + self.org_counter) % size != 0:\n            self.append_assembled_bytes(bytes([self.fill_value]))\n")],
     'an alignment larger than the memory',
     'an absurd .align does not end any more',
     '''
import signal
from necroassembler import Assembler
def late(*a):
    raise SystemExit('no end')
signal.signal(signal.SIGALRM, late)
a = Assembler()
a.assemble('.db 1\\n.align 8\\n')
assert len(a.assembled_bytes) == 8
signal.alarm(10)
try:
    a.assemble('.db 1\\n.align -16\\n')
except (Exception, MemoryError):
    pass
signal.alarm(0)
''')

seed('m32', 'C38', [('assembler.py', "        with open(filename, 'rb') as f:\n            blob = f.read()\n", "        with open(filename, 'rb+') as f:\n            blob = f.read()\n")],
     'an included binary that may not be written',
     'included binaries are opened for writing',
     '''
import os, sys, tempfile
from necroassembler import Assembler
seen = []
sys.addaudithook(lambda e, a: seen.append(a[1]) if e == 'open' and str(a[0]).endswith('data.bin') else None)
with tempfile.TemporaryDirectory() as d:
    with open(d + '/data.bin', 'wb') as f:
        f.write(b'abc')
    del seen[:]
    a = Assembler()
    a.assemble('.incbin "%s/data.bin"\\n' % d)
assert bytes(a.assembled_bytes) == b'abc'
assert seen and not any('+' in m or 'w' in m for m in seen), seen
''')

seed('m33', 'C27', [('cpu/mc68000.py', "size=op_size + (op_size % 2), bits_size=op_size*8, offset=2+offset)", "size=op_size, bits_size=op_size*8, offset=2+offset)")],
     'a byte immediate given by the name of a label',
     'the byte goes to the upper half of the extension word, which the processor ignores',
     '''
from necroassembler.cpu.mc68000 import AssemblerMC68000
a = AssemblerMC68000()
a.assemble('.org $12\\nhere: addi.b #$34,d1\\naddi.b #here,d1\\n')
a.link()
assert bytes(a.assembled_bytes)[-8:] == bytes((6, 1, 0, 0x34, 6, 1, 0, 0x12)), bytes(a.assembled_bytes)[-8:]
''')

seed('m34', 'C24', [('cpu/intel8086.py', "            assembler.parse_integer_or_label(segment, size=2, bits_size=16, offset=3))", "            assembler.parse_integer_or_label(segment, size=2, bits_size=16, offset=2))")],
     'a far jump whose segment is given by name',
     'the segment is stored one byte too early, over the offset',
     '''
from necroassembler.cpu.intel8086 import AssemblerIntel8086
a = AssemblerIntel8086()
a.assemble('.org 0x1234\\nseg: JMP seg:0x5678\\n')
a.link()
assert bytes(a.assembled_bytes)[-5:] == bytes((0xEA, 0x78, 0x56, 0x34, 0x12)), bytes(a.assembled_bytes)[-5:]
''')

seed('m35', 'C25', [('cpu/mips32.py', "'$t8', '$t9', '$k0', '$k1', '$gp', '$sp',", "'$t8', '$t9', '$k1', '$k0', '$gp', '$sp',")],
     'a program using the kernel registers by name',
     '$k0 and $k1 assemble as each other',
     '''
from necroassembler.cpu.mips32 import AssemblerMIPS32
for number, name in ((26, '$k0'), (27, '$k1'), (28, '$gp'), (29, '$sp')):
    codes = []
    for reg in (name, '$%d' % number):
        a = AssemblerMIPS32()
        a.assemble('add %s, $1, $2\\nlw $3, 4(%s)\\n' % (reg, reg))
        a.link()
        codes.append(bytes(a.assembled_bytes))
    assert codes[0] == codes[1], (name, codes)
''')

seed('m36', 'C26', [('cpu/thumb.py', "relative=(self.pc + 4) & ~(0b10))", "relative=self.pc + 4)")],
     'a literal load by label from an address that is not a multiple of four',
     'bit 1 of the program counter is not cleared for literal loads',
     '''
from necroassembler.cpu.thumb import AssemblerThumb
for pad, want in (('', 1), ('ADD r0, r0, r0\\n', 1)):
    a = AssemblerThumb()
    a.assemble('.org 0\\n' + pad + 'LDR r1, [pc, #data]\\n.align 4\\nADD r0, r0, r0\\nADD r0, r0, r0\\ndata: .dd 5\\n')
    a.link()
    at = 2 if pad else 0
    got = bytes(a.assembled_bytes)[at:at + 2]
    assert got == bytes((1, 0x49)), (pad, got)
''')

seed('m37', 'C28', [('cpu/powerpc.py', '[0x40000003, "bcla", ', '[0x40000001, "bcla", ')],
     'a conditional absolute call',
     'bcla loses its AA bit and is encoded as the relative bcl',
     '''
from necroassembler.cpu.powerpc import AssemblerPowerPC
a = AssemblerPowerPC()
a.assemble('bcla 12, 2, 0x100\\n')
a.link()
assert bytes(a.assembled_bytes) == (0x41820103).to_bytes(4, 'big'), bytes(a.assembled_bytes)
''')

seed('m38', 'C29', [('cpu/x86.py', "    (0xf46, 'CMOVNA', _Gvqp, _Evqp),\n", "    (0xf47, 'CMOVNA', _Gvqp, _Evqp),\n")],
     'a conditional move under the alternative name of its condition',
     'CMOVNA moves under the opposite condition',
     '''
from necroassembler.cpu.x86 import AssemblerX86
a = AssemblerX86()
a.assemble('CMOVBE EAX, EBX\\nCMOVNA EAX, EBX\\nCMOVA EAX, EBX\\n')
a.link()
assert bytes(a.assembled_bytes) == bytes((0x0F, 0x46, 0xC3, 0x0F, 0x46, 0xC3, 0x0F, 0x47, 0xC3)), bytes(a.assembled_bytes)
''')

seed('m39', 'C23', [('cpu/lr35902.py', "a_d8=0xDE, d8=0xDE\n", "a_d8=0xDE, d8=0xD6\n")],
     'SBC of an immediate without naming the accumulator',
     'SBC n is encoded as SUB n',
     '''
from necroassembler.cpu.lr35902 import AssemblerLR35902
a = AssemblerLR35902()
a.assemble('SBC A, 5\\nSBC 5\\nSUB 5\\n')
a.link()
assert bytes(a.assembled_bytes) == bytes((0xDE, 5, 0xDE, 5, 0xD6, 5)), bytes(a.assembled_bytes)
''')

seed('m40', 'C39', [('assembler.py', "                true_address = linker.resolve_unknown_symbol(\n                    self, address, data)\n", "                true_address = linker.resolve_unknown_symbol(\n                    self, address - data.offset, data)\n")],
     'a linker of its own and an operand that does not begin the instruction',
     'the linker gets the address of the instruction instead of the one of its field',
     TOY + '''
class L:
    def __init__(self):
        self.asked = []
    def resolve_unknown_symbol(self, assembler, address, data):
        self.asked.append((address, data.label))
        return 0x42
    def link(self, assembler):
        return assembler.assembled_bytes
a, l = T(), L()
a.assemble('NOP\\nONE far\\nTWO away\\n')
a.link(l)
assert bytes(a.assembled_bytes) == bytes((0xEA, 0xA0, 0x42, 0xB0, 0x42, 0)), bytes(a.assembled_bytes)
assert sorted(l.asked) == [(2, 'far'), (4, 'away')], l.asked
''')

seed('m41', 'C15', [('assembler.py', "        asm.pre_link_passes += pre_link_passes\n        asm.post_link_passes += post_link_passes", "        pre_link_passes += asm.pre_link_passes\n        asm.pre_link_passes = pre_link_passes\n        asm.post_link_passes += post_link_passes")],
     'two classes with pre-link passes of their own, run one after the other through their entry points without passing any list',
     'the default list of passes of main() collects the passes of every class that ran',
     '''
import os, sys, tempfile
from necroassembler import Assembler, pre_link
seen = []
class One(Assembler):
    @pre_link
    def _one(self):
        seen.append('one')
class Two(Assembler):
    @pre_link
    def _two(self):
        seen.append('two')
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.s')
    open(p, 'w').write('.db 1\\n')
    sys.argv = ['x', p, os.path.join(d, 'o')]
    One.main()
    Two.main()
assert seen == ['one', 'two'], seen
''')

seed('m42', 'C11', [('macros.py', "            substitute_with_dict(instr.tokens, macro_dict, 0)\n", "            substitute_with_dict(instr.tokens, macro_dict, 0 if len(instr.tokens) > 1 else 1)\n")],
     'a macro argument that stands for a whole statement of the body',
     'a body line made only of an argument keeps the name of the argument',
     TOY + '''
src = '.macro TWICE op\\nop\\nONE 5\\nop\\n.endmacro\\nTWICE NOP\\n'
assert run(src) == bytes((0xEA, 0xA0, 5, 0xEA)), run(src)
''')

seed('m43', 'C19', [('linker.py', "            if symbol_name not in assembler.exports:\n                continue\n            value =", "            if symbol_name not in assembler.exports or symbol_name.startswith('.'):\n                continue\n            value =")],
     'an exported label whose name begins with a dot, linked to ELF',
     'the symbol of the label is missing although its name is in the string table',
     '''
from necroassembler import Assembler
from necroassembler.linker import ELF
import struct
a = Assembler()
a.assemble('.section text RX\\n.db 1\\n.start:\\n.db 2\\nlast:\\n.export .start\\n.export last\\n')
a.link(ELF(32, False, 1, machine=3))
b = bytes(a.assembled_bytes)
shoff, = struct.unpack_from('<I', b, 32)
n, = struct.unpack_from('<H', b, 48)
heads = [struct.unpack_from('<10I', b, shoff + 40 * k) for k in range(n)]
sizes = [h[5] for h in heads if h[1] == 2]
assert sizes == [48], sizes
''')
