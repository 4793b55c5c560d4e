"""Proof units: a driver (C++ file whose instantiations are extracted from /repo), the contracts on them, the specification files."""
import c_enum, c_float, c_io, c_iter, c_meo, c_parser, c_core, c_packed, c_serial, c_typed, c_user, c_value

FLAGS = ['-std=c++17', '-msse4.1', '-DMEOJSON_KEEP_FLOATING_PRECISION', '-DMEOJSON_FS_PATH_EXTENSION', '-I/repo/include',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

class Unit:
    def __init__(s, name, driver, contracts, files, groups, flags=(), bv=False, select=None, mod=None):
        s.select = select; s.mod = mod   # mod: contracts and specification depend on what was extracted
        s.name = name; s.driver = driver; s.contracts = contracts; s.files = files
        s.groups = ['super::sp::' + g for g in groups]; s.flags = FLAGS + list(flags); s.bv = bv

UNITS = {u.name: u for u in [
    Unit('parser', 'parser.cpp', c_parser.contracts + c_core.contracts + c_packed.contracts + c_io.contracts, ['base.rs', 'grammar.rs', 'io.rs'],
         ['seq_lemmas', 'map_lemmas', 'grammar_lemmas', 'io_lemmas'], bv=True),
    Unit('serial', 'serial.cpp', c_serial.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs'], ['seq_lemmas', 'map_lemmas', 'serial_lemmas']),
    Unit('core', 'core.cpp', c_value.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'core.rs'], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas']),
    Unit('typed', 'typed.cpp', c_typed.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', lambda: c_typed.gen()], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'typed_lemmas'],
         select=c_typed.select),
    Unit('look', 'look.cpp', c_typed.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', lambda: c_typed.gen()], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'typed_lemmas'],
         select=lambda c, f: getattr(c, 'look', False)),
    Unit('enums', 'enums.cpp', [], ['base.rs', 'grammar.rs', 'serial.rs', 'core.rs', c_enum.gen], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'enum_lemmas'], select=c_enum.select, mod=c_enum),
    Unit('meo', 'meo.cpp', c_meo.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', lambda: c_meo.gen()], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'typed_lemmas'], select=c_meo.select),
    Unit('floats', 'floats.cpp', c_float.exact, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', 'floats.rs'], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'float_lemmas'], select=c_float.select),
    Unit('floats_plain', 'floats.cpp', c_float.plain, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', 'floats.rs'], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'float_lemmas'], select=c_float.select,
         flags=['-UMEOJSON_KEEP_FLOATING_PRECISION']),
    Unit('iter', 'iter.cpp', c_iter.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'core.rs'], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas'], select=c_iter.select),
    Unit('user', 'user.cpp', c_user.contracts, ['base.rs', 'grammar.rs', 'serial.rs', 'roundtrip.rs', 'core.rs', lambda: c_user.gen()], ['seq_lemmas', 'map_lemmas', 'serial_lemmas', 'core_lemmas', 'typed_lemmas'], select=c_user.select),
    Unit('packed_avx2', 'parser.cpp', [], [], [], flags=['-mavx2'], bv=True),
]}
