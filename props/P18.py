"""P18 symbols and the virtual machine's dictionaries (sym.c, dict.c, dict.inl)."""
from csym import prep, cbmc
import vplib

def unit(s, thorough, groups=('sym', 'id', 'dict')):
    C = []
    def c(fn, bounds, u=9, thor=False, cad=False, enc='', timeout=400, **d):
        if thor and not thorough: return
        C.append(cbmc.Case(fn, bounds, unwind=u, timeout=timeout, defs=tuple('-D%s=%s' % x for x in d.items()), mem_gb=6,
                           solver=['--sat-solver', 'cadical'] if cad else None, encodes=enc.split()))
    S = 'sym.c:intern_counted_string sym.c:alloc_symbol_oop sym.c:alloc_symlink sym.c:is_same_string sym.c:hash_symbol sym.c:_gst_hash_string sym.c:_gst_string_oop_len dict.inl:scramble'
    if 'sym' in groups:
        for n, m in ((1, 0), (1, 1), (3, 2), (3, 3), (8, 8), (9, 8), (9, 9), (16, 16), (17, 16)):
            c('h_sym', 'every two spellings of %d and %d characters, in one bucket' % (n, m), u=22, LEN=n, LEN2=m, enc=S)
        c('h_sym', 'every two spellings of 1 character, in two buckets', u=22, LEN=1, BUCKETS=2, enc=S)
        c('h_sym3', 'every two spellings of 3 characters, the first interned again', u=22, LEN=3, enc=S)
        for n in (1, 7, 8, 9, 17): c('h_sym_oop', 'every string of %d characters' % n, u=22, LEN=n, enc=S + ' sym.c:_gst_intern_string_oop')
        for n in (1, 2, 8): c('h_numargs', 'every symbol of %d characters' % n, u=22, LEN=n, enc='sym.c:_gst_selector_num_args')
    I = 'dict.c:_gst_identity_dictionary_at_put dict.c:identity_dictionary_find_key_or_nil dict.c:grow_identity_dictionary dict.c:new_num_fields dict.inl:instantiate_with dict.inl:scramble'
    st = lambda ns, n: 'every table of %d slots holding %d of 1023 keys, every key and value' % (ns, n)
    if 'id' in groups:
        for ns, n in ((4, 0), (4, 1), (4, 2), (4, 3), (8, 5), (8, 6)): c('h_id_put', st(ns, n), u=2 * ns + 1, NS=ns, USED=n, enc=I)
        c('h_id_put', st(4, 4) + ' (grows)', cad=True, NS=4, USED=4, enc=I)
        c('h_id_put', 'every table of 8 slots holding 7 of 31 keys (grows)', u=17, thor=True, NS=8, USED=7, NKEY=32, enc=I, timeout=900)
        for ns, n in ((4, 2), (4, 3), (8, 7)):
            c('h_id_find', st(ns, n), u=2 * ns + 1, NS=ns, USED=n, thor=ns == 8, enc='dict.c:identity_dictionary_find_key dict.c:_gst_identity_dictionary_at')
            c('h_class_method', st(ns, n), u=2 * ns + 1, NS=ns, USED=n, enc='dict.c:_gst_find_class_method dict.c:identity_dictionary_find_key')
        for n in (1, 3): c('h_id_inc', st(4, n), NS=4, USED=n, enc='dict.c:_gst_identity_dictionary_at_inc ' + I)
    D = 'dict.c:_gst_dictionary_add dict.c:find_key_or_nil dict.c:grow_dictionary dict.inl:dictionary_association_at dict.inl:dictionary_at'
    if 'dict' in groups:
        for ns, n in ((4, 2), (4, 3), (8, 7)): c('h_dict_find', st(ns, n), u=2 * ns + 1, NS=ns, USED=n, thor=ns == 8, enc=D)
        for n in (0, 2, 3): c('h_dict_add', st(4, n), NS=4, USED=n, enc=D)
        c('h_dict_add', st(4, 3), NS=4, USED=3, FIXD=2, enc=D)
        for n in (1, 2): c('h_dict_grow', st(2, n), NS=2, USED=n, enc=D)
        c('h_dict_grow', 'every table with slots 1, 3 and 4 of 4 taken', NS=4, OCC=13, enc=D)
        c('h_dict_grow', 'every full table of 4 slots over 31 keys', thor=True, NS=4, USED=4, NKEY=32, enc=D, timeout=900)
        for ns, n in ((2, 1), (4, 2)): c('h_namespace', 'every two nested namespaces of %d slots holding %d keys each' % (ns, n), NS=ns, FIXD=5, USED=n, enc='dict.c:_gst_namespace_association_at dict.c:_gst_namespace_at dict.inl:is_a_kind_of ' + D)
    C.sort(key=lambda x: -(x.fn in ('h_dict_grow', 'h_namespace') or '-DUSED=4' in x.defs))
    return cbmc.Unit(s, 'symdict.c', C)

def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    ctx.assumptions += ['the object table swap of become: and the allocator are represented by their specification', 'tables of 2, 4 and 8 slots; the symbol table has 1 or 2 buckets instead of 512 (more collisions)']
    vplib.run_units(ctx, [unit(s, ctx.thorough)])
