"""The harness entries that decide each property. q/t: bounds passed to the harness (thorough adds t), tq/tt: seconds."""
PROPS = {}
def E(h, name, **k): k.update(h=h, name=name); return k
def P(pid, *entries, **k): k['entries'] = list(entries); PROPS[pid] = k
I = 'int.cpp'
P('N01', E(I, 'int_bits'), E(I, 'int_ctz_count', w=9), E(I, 'int_rotate'), E(I, 'int_compare'), E(I, 'int_fp'), E(I, 'int_div', reach=['end', 'zero', 'nonzero'], w=5), E(I, 'int_div_min'), E(I, 'int_arith'))
P('N02', E(I, 'int_boxtext'), E(I, 'int_roundtrip', w=9), E(I, 'int_roundtrip_box', w=9), E(I, 'int_radix', w=9), E(I, 'int_unsigned_dec', w=9), E(I, 'int_parse', w=8, reach=['end', 'fits', 'range']), E(I, 'int_parse_bad'), E(I, 'int_parse_edge'), E(I, 'int_parse_any', w=6), E(I, 'int_parse_hex', w=6), E(I, 'int_parse_uns', w=6), E(I, 'int_parse_wrap'), E(I, 'int_decode'), E(I, 'int_decode_edge'))
L = 'lng.cpp'
P('N03', E(L, 'lng_bits'), E(L, 'lng_reverse'), E(L, 'lng_clz'), E(L, 'lng_ctz'), E(L, 'lng_count', w=9), E(L, 'lng_count16', w=9), E(L, 'lng_rotate'), E(L, 'lng_compare'), E(L, 'lng_fp'), E(L, 'lng_arith'), E(L, 'lng_div', w=5), E(L, 'lng_div_zero'), E(L, 'lng_div_min'))
P('N04', E(L, 'lng_boxtext'), E(L, 'lng_roundtrip', w=9), E(L, 'lng_static_text', w=9), E(L, 'lng_radix_bin', q={'k': 0}, w=8), E(L, 'lng_radix_oct', q={'k': 1}, w=8), E(L, 'lng_radix_hex', q={'k': 2}, w=8), E(L, 'lng_parse', w=9), E(L, 'lng_parse_long', w=9), E(L, 'lng_parse_bad'), E(L, 'lng_parse_hex'), E(L, 'lng_decode'), E(L, 'lng_decode_oct'))
M = 'small.cpp'
P('N05', E(M, 'short_arith'), E(M, 'short_div', w=5), E(M, 'short_text', w=5), E(M, 'short_parse', w=5), E(M, 'short_parse_bad'), E(M, 'bytes_arith'), E(M, 'bytes_div', reach=['end', 'zero']), E(M, 'bytes_text'), E(M, 'bytes_parse'), E(M, 'bytes_valueof'), E(M, 'bytes_decode'), E(M, 'boolean_ops'), E(M, 'boolean_parse'), E(M, 'char_digit'), E(M, 'char_misc'), E(M, 'char_surrogate'), E(M, 'char_codepoints'))
F = 'fp.cpp'
P('N06', *[E(F, x) for x in 'flt_compare dbl_compare flt_arith dbl_arith flt_value dbl_value flt_bits dbl_bits dbl_unbits flt_unbits dbl_parse flt_parse fp_parse_bad'.split()], E(F, 'dbl_decode', reach=['end', 'nan', 'zero'], w=5))
P('N07', E(F, 'math_exact_int', reach=['end', 'overflow']), E(F, 'math_exact_long', reach=['end', 'overflow']), E(F, 'math_mul_long', w=9, reach=['end', 'overflow']), E(F, 'math_floor_int', w=9, t={'R': 40}, reach=['end', 'zero']), E(F, 'math_floor_long', w=8, t={'R': 30}, reach=['end', 'zero']), E(F, 'math_floor_min'), E(F, 'math_round', w=9), *[E(F, x) for x in 'math_minmax math_sign math_roundf math_next math_nextf math_exp math_trig'.split()])
T = 'str.cpp'
P('S01', *[E(T, x) for x in 'str_construct str_nul str_compare str_ignorecase str_concat'.split()], E(T, 'str_index', reach=['in', 'end']), E(T, 'str_fromarray', reach=['in', 'end']), E(T, 'str_getchars', reach=['in', 'end']), E(T, 'str_hash'))
P('S02', *[E(T, x) for x in 'str_indexof_char str_indexof_str str_lastindexof_str str_contains str_startends str_region'.split()], E(T, 'str_lastindexof_tail', reach=[]))
P('S03', *[E(T, x) for x in 'str_trim str_replace_char str_replace str_split str_case str_join'.split()], E(T, 'str_substring', reach=['in', 'end']))
P('S04', *[E(T, x) for x in 'str_valueof str_valueof_long str_format_lit str_format_percent str_format_args str_format_missing str_format_wide'.split()])
BX = 'boxmem.cpp'
P('N08', E(BX, 'mem_integer', w=6), E(BX, 'mem_long', w=5), E(BX, 'mem_small'), E(BX, 'mem_float', w=5))
SBF = 'sb.cpp'
P('B01', *[E(SBF, x) for x in 'sb_construct sb_append sb_append_value sb_reverse sb_codepoints'.split()], E(SBF, 'sb_indexof', t={'L': 6, 'M': 4}), E(SBF, 'sb_lastindexof', t={'L': 6, 'M': 4}), E(SBF, 'sb_indexof_long', t={'F': 7}, w=2), E(SBF, 'sb_history', t={'N': 3}, w=3), *[E(SBF, x, reach=['in', 'end'], w=5, t={'L': 3, 'M': 3, 'few': 0}) for x in 'sb_append_range sb_insert_range sb_replace sb_insert sb_delete sb_setters sb_substring'.split()])
SU = 'sbuf.cpp'
P('B02', *[E(SU, x, reach=['in', 'end'], w=5, t={'L': 3, 'M': 3, 'few': 0}) for x in 'sbuf_append_range sbuf_insert_range sbuf_replace sbuf_insert sbuf_delete sbuf_setters sbuf_substring'.split()], *[E(SU, x) for x in 'sbuf_construct sbuf_append sbuf_append_self sbuf_value sbuf_reverse sbuf_codepoints'.split()], E(SU, 'sbuf_indexof_long', q={'F': 7}, t={'F': 10}, w=2), E(SU, 'sbuf_indexof', t={'L': 5, 'M': 3}), E(SU, 'sbuf_lastindexof', t={'L': 5, 'M': 3}), E(SU, 'sbuf_history', t={'N': 3}, w=3))
ST = 'sbthread.cpp'
P('B03', *[E(ST, 'sb_threads', q={'lo': i, 'cnt': 11}, threads=True, reach=['first', 'second'], w=5) for i in (0, 11, 22, 33)], E(ST, 'sb_threads_cross', threads=True))
IE = ['in', 'end']
LI = 'list.cpp'
P('C01', E(LI, 'al_at', reach=IE), E(LI, 'al_remove', reach=IE), E(LI, 'al_history', t={'N': 4}, w=5), *[E(LI, x) for x in 'al_alias al_construct al_find al_foreach al_tostring'.split()], E(LI, 'al_add', reach=IE))
P('C02', *[E(LI, x, reach=IE) for x in 'v_at v_range v_remove v_addall v_size'.split()], *[E(LI, x) for x in 'v_alias v_construct v_find'.split()], E(LI, 'v_stack', t={'N': 5}), E(LI, 'v_history', t={'N': 4}, w=5))
P('C03', *[E(LI, x, reach=IE) for x in 'll_ends ll_at'.split()], *[E(LI, x) for x in 'll_alias ll_insert ll_copy ll_foreach'.split()], E(LI, 'll_history', t={'N': 5}, w=5))
MP = 'map.cpp'
P('C04', *[E(MP, x) for x in 'hm_op_string hm_op_integer hm_two_string hm_two_integer hm_visit hm_entry hm_tostring hm_tostring2 hm_primitive hm_grow set_ops'.split()], E(MP, 'hm_history', t={'N': 4}, w=5))
P('C05', E(MP, 'pq_order_int', t={'N': 5}), E(MP, 'pq_order_integer', t={'N': 5}), E(MP, 'pq_remove', reach=IE, t={'N': 5}), E(MP, 'pq_toarray'), E(MP, 'pq_capacity'))
BS = 'bits.cpp'
P('C07', E(BS, 'bs_range', reach=IE, t={'full': 1, 'W': 2, 'hi': 200}, w=5), E(BS, 'bs_getrange', reach=IE, t={'full': 1}, w=5), *[E(BS, x, reach=IE, w=3) for x in 'bs_bit bs_scan'.split()], *[E(BS, x) for x in 'bs_logic bs_self bs_equal bs_length bs_cardinality bs_copy bs_bytes bs_longs bs_tostring bs_construct'.split()], E(BS, 'bs_history', t={'N': 3}, w=3))
AR = 'arr.cpp'
P('C06', *[E(AR, 'arr_sort_orders', q={'api': i}, t={'N': 7}, w=8) for i in (0, 1)], *[E(AR, x, reach=IE) for x in 'arr_basic arr_copy arr_fill'.split()], *[E(AR, x) for x in 'arr_sized arr_texts arr_sort_other arr_sort_strings arr_search_bad arr_equal arr_hash arr_aslist'.split()], *[E(AR, 'arr_sort_' + x, t={'N': 5}, w=3) for x in 'int long char double'.split()], *[E(AR, 'arr_search_' + x, t={'N': 7}, w=2) for x in 'int long small'.split()])
B6 = 'base64.cpp'
P('D01', *[E(B6, x) for x in 'b64_basic b64_url b64_mime b64_line_bad b64_into b64_text b64_decode_into'.split()], E(B6, 'b64_line_into', w=5), E(B6, 'b64_mime_into', w=5, t={'N': 6}), *[E(B6, 'b64_line', q={'sep': i}, t={'lines': 7}, w=9) for i in (0, 2, 3)], *[E(B6, x, reach=['bad', 'end'], w=4) for x in 'b64_decode b64_decode_url b64_decode_mime b64_decode_end'.split()])
UR = 'url.cpp'
P('D02', *[E(UR, x, w=3, t={'N': 5}) for x in 'url_encode url_decode url_decode_any'.split()], E(UR, 'url_charset', reach=['utf', 'end']))
UU = 'uuid.cpp'
P('D03', *[E(UU, x, w=3) for x in 'uuid_text uuid_parse_text uuid_parse_bad uuid_fields uuid_order uuid_when uuid_lib_unparse uuid_lib_parse uuid_lib_parse_bad uuid_lib_misc'.split()])
P('D04', *[E(UU, x, w=3) for x in 'uuid_random uuid_random_entropy uuid_random_many uuid_random_class uuid_time_first uuid_time_later uuid_time_burst uuid_time_bulk uuid_time_class'.split()])
RN = 'random.cpp'
P('D05', *[E(RN, x) for x in 'rnd_next rnd_history rnd_setseed rnd_bound rnd_bound_bad rnd_unit rnd_bytes rnd_string rnd_gaussian rnd_fresh'.split()], E(RN, 'rnd_threads', threads=True), E(RN, 'rnd_fresh_threads', threads=True))
MDG = 'digest.cpp'
P('D06', *[E(MDG, x, q={'alg': a}, w=2) for a in (0, 1) for x in 'md_value md_pieces md_reuse md_bad md_leak md_length'.split()], E(MDG, 'md_name', reach=['known', 'end']))
DT = 'date.cpp'
P('D07', *[E(DT, x, w=3) for x in 'date_fields date_carry date_set date_time date_order date_copy date_text date_roundtrip date_parse_fields date_parse_zone date_parse_century date_parse_bad date_parse_remarks date_parse_signs sdf_format sdf_long'.split()], E(DT, 'date_parse_ampm', reach=['ok', 'bad', 'end'], w=3), E(DT, 'date_parse_any', reach=['read', 'refused', 'end'], w=4, t={'N': 3}))
MT = 'media.cpp'
P('D08', E(MT, 'mt_make', reach=['ok', 'bad', 'end'], q={'N': 3}, t={'N': 5}, w=3), E(MT, 'mt_default'), E(MT, 'mt_valueof', reach=['ok', 'bad', 'end'], q={'N': 5}, t={'N': 7}, w=4), E(MT, 'mt_valueof_shape', reach=['ok', 'bad', 'end'], w=3), E(MT, 'mt_compatible', reach=['yes', 'no', 'end'], w=5), E(MT, 'mt_names'))
EX = 'exc.cpp'
P('X01', E(EX, 'exc_handlers', reach=['handled', 'passed', 'end'], t={'N': 5}, w=4), E(EX, 'exc_leak'), E(EX, 'exc_values'))
TH = 'thread.cpp'
P('T01', *[E(TH, x, threads=True) for x in 'sem_acquire_release sem_small_passes sem_mutex sem_three'.split()], E(TH, 'sem_sequential', w=4, t={'N': 3}), E(TH, 'sem_text'), E(TH, 'sem_waits'), E(TH, 'sem_look', threads=True), E(TH, 'sem_timed_total', threads=True, opts=['--preempt', '0']), E(TH, 'sem_try', threads=True, reach=['both', 'one', 'none']), E(TH, 'sem_timed', threads=True, reach=['got', 'out']))
P('T02', *[E(TH, x, threads=True) for x in 'thr_run thr_alive thr_joins thr_join_timed thr_destroy thr_two thr_detach'.split()], E(TH, 'thr_name'), E(TH, 'thr_sleep'))
CH = 'chm.cpp'
P('C08', *[E(CH, x) for x in 'chm_clear chm_value chm_copy chm_equals chm_grow chm_collide chm_texts'.split()], E(CH, 'chm_history', t={'N': 4}, w=4), *[E(CH, 'chm_pairs', threads=True, q={'h': i}, w=10) for i in range(4)], *[E(CH, x, threads=True, w=8) for x in 'chm_whole chm_two_each'.split()], *[E(CH, 'chm_grow_threads', threads=True, q={'f': f, 'n0': n}, t={'B': 4}, tq=280, tt=850, opts=['--preempt', '1'], w=12) for f, n in ((0, 8), (1, 7), (4, 7))])

CQ = 'clq.cpp'
P('C09', E(CQ, 'clq_history', t={'N': 6}, w=3), E(CQ, 'clq_many', t={'K': 130}), E(CQ, 'clq_texts'), *[E(CQ, x, threads=True, w=5) for x in 'clq_last clq_produce clq_consume clq_both clq_clear'.split()], *[E(CQ, 'clq_edge', threads=True, q={'pre': i}, w=4) for i in (31, 32, 33)])
