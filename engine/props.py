"""Property -> the functions of /repo whose contracts it rests on (regular expressions over
function keys, its own functions and the ones they are built on) and the specification-level
lemmas that turn those contracts into the property."""
READERS = [r'io::Reader::.*', r'io::array::MemoryReader::.*', r'io::array::<(ByteArrayReader|VecReader)>::.*',
           r'io::array::<(Reader|MemoryReader) for (ByteArrayReader|VecReader)>::.*']
WRITERS = [r'io::Writer::.*', r'io::array::<(VecWriter|BorrowedVecWriter|ByteArrayWriter)>::.*',
           r'io::array::<(Writer|Default) for (VecWriter|BorrowedVecWriter|ByteArrayWriter)>::.*', r'io::array::<.*Into.*for VecWriter>::.*']
LIMITED = [r'io::<LimitedReader>::.*', r'io::<Reader for LimitedReader>::.*', r'io::Reader::(skip|skip_u64|read_all)']
ILENC = [r'ilint::(?!.*decode).*']
ILDEC = [r'ilint::(?!.*encode).*', r'ilint::.*decode.*']
IN = [r'io::data::(<.*>::)?read_.*', r'io::data::<.*(Reader)(<.*>)? for .*>::.*']     # primitive reads
OUT = [r'io::data::(<.*>::)?write_.*', r'io::data::<.*(Writer)(<.*>)? for .*>::.*']   # primitive writes
SER = [r'tags::serialization::(<.*Serializer.*>|\w+Serializer)::.*', r'tags::serialization::serialize_.*']
DES = [r'tags::serialization::(<.*Deserializer.*>|\w+Deserializer)::.*', r'tags::serialization::deserialize_.*']
EXPL = r'(ILByteArrayTag|ILStringTag|ILBigIntTag|ILBigDecTag|ILILIntArrayTag|ILRangeTag|ILVersionTag|ILOIDTag)'
CONT = r'(ILTagArrayTag|ILTagSeqTag|ILDictTag|ILStrDictTag)'
STD = r'tags::standard::(explicit|implicit)::'
FACTORY = [r'tags::standard::factory::.*', r'tags::<ILTagCreatorEngine>::.*', r'tags::<ILTagCreator for .*>::.*', r'tags::<(Default for )?ILDefault.*>::.*', r'tags::DefaultWithId::.*',
           r'tags::ILTagCreator::.*', STD + r'<(Default|DefaultWithId) for .*>::.*', r'tags::<DefaultWithId for ILRawTag>::.*', r'tags::ILTagFactory::.*']
HEADS = [r'tags::(is_implicit_tag|is_reserved_tag|tag_size_to_usize)', r'tags::standard::implicit::implicit_tag_size', r'tags::util::limited_reader_ensure_empty']
ENCODE = [r'tags::ILTag::.*', r'tags::(is_implicit_tag|is_reserved_tag)', r'tags::<ILTag for ILRawTag>::(id|value_size|serialize_value)',
          STD + r'<ILTag for .*>::(id|value_size|serialize_value)', STD + r'(string_tag_size_from_value|serialize_string_tag_from_value)'] + SER
DECODE = [STD + r'<ILTag for .*>::deserialize_value', r'tags::<ILTag for ILRawTag>::deserialize_value', STD + r'deserialize_string_tag.*', r'tags::ILTag::deserialize_value'] + DES + FACTORY + HEADS
PAYLOAD = [r'tags::payload::.*']
PROPS = {
 'C01': dict(fns=ILENC + [r'io::data::.*write_ilint', r'io::data::<ILIntWriter.*>::.*'], lemmas=['lemma_ilint_len', 'lemma_ilint_minimal', 'lemma_ilint_injective', 'lemma_nbytes_ladder', 'lemma_be_to_be']),
 'C02': dict(fns=ILDEC + [r'io::data::.*read_ilint', r'io::data::<ILIntReader.*>::.*'], lemmas=['lemma_ilint_roundtrip', 'lemma_ilint_parse_local', 'lemma_ilint_parse_bounds', 'lemma_to_be_be', 'lemma_ilint_rt']),
 'C03': dict(fns=[r'ilint::.*sign.*', r'io::data::.*signed_ilint', r'io::data::<Signed.*>::.*'], lemmas=['lemma_zigzag']),
 'C04': dict(fns=[r'io::data::.*'], lemmas=['lemma_fixed_inj', 'lemma_i8_inj', 'lemma_i16_inj', 'lemma_i32_inj', 'lemma_i64_inj', 'lemma_be_to_be', 'lemma_utf8_inj', 'lemma_tk1']),
 'C05': dict(fns=READERS, lemmas=['lemma_step_step', 'lemma_step_failed']),
 'C06': dict(fns=WRITERS, lemmas=['lemma_overwrite', 'lemma_over_parts', 'lemma_wstep_wstep']),
 'C07': dict(fns=LIMITED, lemmas=['lemma_lim_step', 'lemma_lim_failed', 'lemma_lim_view']),
 'C08': dict(fns=[r'io::std_io::.*', r'io::(Reader|Writer)::.*'], lemmas=['lemma_io_at', 'lemma_io_fover', 'lemma_io_moved', 'lemma_io_over']),
 'C09': dict(fns=ENCODE + ILENC + OUT + PAYLOAD + [r'tags::<ILRawTag>::.*', STD + r'<IL\w+Tag>::.*'],
             lemmas=['lemma_ints_len', 'lemma_dict_len', 'lemma_sdict_len', 'lemma_fsum_perm', 'lemma_keys_of', 'lemma_keys_unique', 'lemma_ilint_len', 'lemma_wstep_wstep']),
 'C10': dict(fns=[r'tags::standard::implicit::.*', r'tags::ILTag::.*'] + FACTORY + HEADS + ILENC + ILDEC + IN + OUT,
             lemmas=['lemma_head_parse', 'lemma_tparse_k', 'lemma_zigzag', 'lemma_ilint_roundtrip', 'lemma_to_be_be', 'lemma_tag_rt', 'lemma_val_rt', 'lemma_std_conf', 'lemma_head_rt', 'lemma_ilint_rt', 'lemma_val_plain', 'lemma_val_num', 'lemma_val_snum']),
 'C11': dict(fns=[STD + r'<ILTag for %s>::.*' % EXPL, STD + r'<%s>::.*' % EXPL, STD + r'<(Default|DefaultWithId) for %s>::.*' % EXPL, STD + r'\w*string_tag\w*', r'tags::ILTag::.*'] + SER + DES + FACTORY + HEADS + ILENC + ILDEC + IN + OUT,
             lemmas=['lemma_head_parse', 'lemma_tparse_k', 'lemma_nums_take', 'lemma_nums_start', 'lemma_nums_next', 'lemma_nums_end', 'lemma_fill_start', 'lemma_fill_next', 'lemma_fill_end', 'lemma_utf8_decode', 'lemma_dec_i32', 'lemma_dec_u16', 'lemma_str_parse_bounds', 'lemma_tag_rt', 'lemma_val_rt', 'lemma_std_conf', 'lemma_head_rt', 'lemma_ilint_rt', 'lemma_nums_rt', 'lemma_val_plain', 'lemma_val_dec', 'lemma_val_nums', 'lemma_val_range']),
 'C12': dict(fns=[STD + r'<ILTag for %s>::.*' % CONT, STD + r'<%s>::.*' % CONT, STD + r'<(Default|DefaultWithId) for %s>::.*' % CONT, STD + r'\w*string_tag\w*', r'tags::ILTag::.*'] + SER + DES + FACTORY + HEADS + ILENC + ILDEC + LIMITED,
             lemmas=['lemma_head_parse', 'lemma_tparse_k', 'lemma_seq_take', 'lemma_dict_take', 'lemma_sdict_take', 'lemma_tags_start', 'lemma_tags_next', 'lemma_tags_end', 'lemma_dict_start', 'lemma_dict_next', 'lemma_dict_end', 'lemma_sdict_start', 'lemma_sdict_next', 'lemma_sdict_end', 'lemma_lim_back', 'lemma_dict_insert', 'lemma_sdict_insert', 'lemma_tag_rt', 'lemma_val_rt', 'lemma_std_conf', 'lemma_head_rt', 'lemma_seq_rt', 'lemma_dict_rt', 'lemma_sdict_rt', 'lemma_str_rt', 'lemma_ins_all', 'lemma_val_tags', 'lemma_val_array', 'lemma_val_dict', 'lemma_val_sdict']),
 'C13': dict(fns=DECODE + ILDEC + IN + LIMITED + [r'tags::raw::.*', r'tags::<From<crate::io::ErrorKind> for ErrorKind>::from'], lemmas=['lemma_head_parse', 'lemma_lim_back', 'lemma_lim_back_failed', 'lemma_ilint_parse_bounds', 'lemma_str_parse_bounds']),
 'C14': dict(fns=FACTORY + HEADS + [r'tags::<ILRawTag>::.*', r'tags::<ILTag for ILRawTag>::.*', r'tags::ILTag::.*', STD + r'<ILTag for .*>::id'], lemmas=['lemma_head_parse', 'lemma_tparse_k', 'lemma_strict', 'lemma_unknown', 'lemma_tag_rt']),
 'C15': dict(fns=[r'tags::raw::.*', r'io::data::.*read_ilint', r'tags::standard::implicit::implicit_tag_size', r'tags::is_implicit_tag'] + ILDEC, lemmas=['lemma_ilint_win', 'lemma_ilint_parse_local', 'lemma_ilint_parse_bounds']),
 'C16': dict(fns=DECODE + ILDEC, lemmas=['lemma_head_parse', 'lemma_tparse_k', 'lemma_lim_back', 'lemma_lim_back_failed', 'lemma_tag_rt', 'lemma_decode_encode']),
 'C17': dict(fns=[STD + r'<ILTag for (ILDictTag|ILStrDictTag)>::(serialize_value|value_size)', STD + r'<(ILDictTag|ILStrDictTag)>::.*', STD + r'serialize_string_tag_from_value', r'tags::ILTag::.*'] + SER,
             lemmas=['lemma_keys_of', 'lemma_keys_unique', 'lemma_keys_from', 'lemma_key_order', 'lemma_bytes_lt_irr', 'lemma_bytes_lt_total', 'lemma_bytes_lt_trans', 'lemma_dict_len', 'lemma_sdict_len']),
 'C18': dict(fns=[r'tags::util::.*'] + ENCODE + DECODE, lemmas=['lemma_lat_at', 'lemma_lat_done', 'lemma_lat_err', 'lemma_lat_new', 'lemma_lat_step', 'lemma_slice_eq', 'lemma_tparse_k', 'lemma_tag_rt', 'lemma_tag_inj', 'lemma_clone', 'lemma_std_conf']),
 'C19': dict(fns=[r'tags::<ILTagCreatorEngine>::.*', r'tags::<ILTagCreator for .*>::.*', r'tags::ILTagCreator::.*', r'tags::<(Default for )?ILDefault.*>::.*', r'tags::DefaultWithId::.*', r'tags::<DefaultWithId for ILRawTag>::.*', r'tags::standard::factory::(create_std_engine|<ILStandardTagFactory>::(new|engine))'], lemmas=['lemma_strict']),
 'C20': dict(fns=[r'tags::tag_(id_)?downcast_(ref|mut)(_with_id)?', r'tags::assert_tag_id_and_type(_or_error)?', r'tags::ILTag::id'], lemmas=[],
             assumptions=['Any::downcast_ref/downcast_mut/type_id tell the concrete type of the object they are called on, and as_any/as_mut_any return the tag itself (contracted stand-ins any_ref, any_mut, any_is)']),
}
RECURSE = 'recursion depth: the stack is deep enough for the nesting of the data (see known-findings.txt)'
CREAT = 'create_tag is called with creators that accept the identifier (a user-registered creator may panic on one it does not accept)'
OVERFLOW = 'sizes: a value held in memory has fewer than 2^63 bytes, so size sums do not overflow'
for k in ('C12', 'C13', 'C16', 'C18'): PROPS[k]['assumptions'] = [RECURSE]
for k in ('C14', 'C19'): PROPS[k]['assumptions'] = [CREAT, 'ILRawTag::new and ILBigDecTag::with_id are called with an identifier above 15 (documented: they panic otherwise)']
PROPS['C09']['assumptions'] = [OVERFLOW, 'payload types obey the ILTagPayload contract (size equals bytes written)']
PROPS['C08']['assumptions'] = ['std::io::Read/Write/Seek implementations obey the contract stated in specs/00..09 (short reads and writes, errors at any point allowed)']
PROPS['C15']['assumptions'] = ['RawTagOffset accessors: on a user-constructed value, offset + size does not overflow u64']
