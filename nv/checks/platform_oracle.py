"""Independent statements of what the platform front ends add to an image."""


def gameboy(image):
    """header and global checksums of a Game Boy ROM (Pan Docs)"""
    b = bytearray(image)
    x = 0
    for v in b[0x134:0x14D]:
        x = (x + v + 1) % 256
    b[0x14D] = -x % 256
    b[0x14E] = b[0x14F] = 0
    b[0x14E:0x150] = (sum(b) % 65536).to_bytes(2, 'big')
    return bytes(b)


def gba(image):
    """complement check of the cartridge header (GBATEK: all bytes 0A0h..0BDh plus 19h are zero)"""
    b = bytearray(image)
    b[0xBD] = (-0x19 - sum(b[0xA0:0xBD])) % 256
    return bytes(b)


def genesis(image):
    """sum of the big endian words from 200h to the end, in the word at 18Eh"""
    b = bytearray(image)
    rest = bytes(b[0x200:])
    rest += bytes(len(rest) % 2)
    total = sum(rest[0::2]) * 256 + sum(rest[1::2])
    b[0x18E:0x190] = (total % 65536).to_bytes(2, 'big')
    return bytes(b)


def psx_body(image):
    return bytes(image) + bytes(-len(image) % 2048)


PSX_HEADER_FIELDS = ((0x00, b'PS-X EXE'), (0x10, (0x80010000).to_bytes(4, 'little')), (0x18, (0x80010000).to_bytes(4, 'little')))


def nes_symbols(labels):
    """.nl files of FCEUX: $ADDR#name#, CR LF"""
    rom = b''.join(b'$%04X#%s#\r\n' % (a, n.encode()) for n, a in labels.items() if 0x8000 <= a <= 0xFFFF)
    ram = b''.join(b'$%04X#%s#\r\n' % (a, n.encode()) for n, a in labels.items() if 0 <= a <= 0x7FF)
    return rom, ram
