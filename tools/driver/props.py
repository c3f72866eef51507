"""Which properties the contract of each function carries."""
import re

TITLES = {}

# (pattern on the function key, properties its contract carries)
TABLE = [
    (r"decode_u(32|64)$", "C01"),
    (r"decode_(i32|i64|s33)$", "C02"),
    (r"read_byte$", "C14 C01"),
    (r"\w+Idx::decode$", "C01 C06 C09"),
    (r"decode_f(32|64)$", "C06"),
    (r"decode_byte_vector$", "C12 C10"),
    (r"decode_name$", "C12 C09"),
    (r"decode_expr$", "C07 C05"),
    (r"instruction_contains_data_index$|any<instruction_contains_data_index>$", "C05"),
    (r"Instruction::parse$", "C06 C07"),
    (r"Memarg::decode$|LaneIdx::\w+$|decode_castop$", "C06"),
    (r"BlockType::decode$|Catch::decode$", "C07"),
    (r"decode_list<LabelIdx::decode>$", "C06"),
    (r"decode_list<Catch::decode>$", "C07"),
    (r"Module::validate_section_kind_expected$|SectionKind::from_marker$|parse_preamble$", "C03"),
    (r"Module::default$", "C03 C09"),
    (r"decode_section_header$", "C03 C04 C14"),
    (r"decode_module$", "C03 C04 C05 C09 C11 C12 C14"),
    (r"decode_code_section$|decode_list<parse_code>$", "C11 C05"),
    (r"parse_code$", "C11 C04 C05"),
    (r"parse_code_local$|decode_list<@parse_code#0>$", "C11"),
    (r"decode_section_custom$", "C12 C04"),
    (r"decode_datacount_section$", "C05"),
    (r"parse_data$|decode_data_section$|decode_list<parse_data>$", "C10"),
    (r"parse_elem$|parse_elemkind$|funcidx_into_reffunc$|decode_element_section$|decode_list<@?parse_elem(#\d+)?>$|decode_list<FuncIdx::decode>$", "C10"),
    (r"decode_function_section$|decode_list<TypeIdx::decode>$", "C09 C11 C05"),
    (r"(decode_list<)?(decode_table|parse_import|parse_global|parse_export)>?$", "C09 C08"),
    (r"(decode_list<)?(parse_memtype|TagType::decode|RecType::decode)>?$", "C08 C09"),
    (r"decode_(import|table|memory|global|export|start|tag|type)_section$|ExternIdx::from$", "C09"),
    (r"decode_list<", "C08 C09"),
]
BY_FILE = [
    (r"decode/types/", "C08"),
    (r"decode/sections/(element|data)\.rs", "C10"),
    (r"decode/sections/code\.rs", "C11 C04 C05"),
    (r"decode/sections/custom\.rs", "C12"),
    (r"decode/sections/", "C09"),
    (r"decode/instructions\.rs", "C06 C07"),
    (r"decode/integer\.rs", "C01 C02"),
    (r"decode/indices\.rs", "C01"),
    (r"decode/helpers\.rs", "C07 C12 C14"),
    (r"decode/module\.rs", "C03 C04 C05 C14"),
]


def props_of(key, file=""):
    for pat, ps in TABLE:
        if re.match(pat, key):
            return ps.split()
    for pat, ps in BY_FILE:
        if re.search(pat, file):
            return ps.split()
    return []
