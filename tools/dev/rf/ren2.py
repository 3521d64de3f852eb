import sys; sys.path.insert(0,'/tmp/rf')
from ren import *
LX='L01 L02 L03 L04 L05 E01 S01 S05 S06'
CG='C01 C02 C03 C04 C06 C07'
J=[('lexfields',LX,[(r'\b(token_start|accessor_start|index|quasi)\b',r'\1_r')]),
('lexfields2',LX,[(r'\bself\.ptr\b','self.base'),(r'\blex\.ptr\b','lex.base'),(r'(?m)^    ptr: \*const u8',r'    base: *const u8'),(r'(?m)^            ptr: ',r'            base: '),(r'(?m)^            ptr,',r'            base: ptr,')]),
('lexfns',LX,[(r'\b(read_byte|bump|next_byte|read_binary|read_label|read_unicode|slice_from|slice_source|read_octal|read_hexadec|end_digits|read_float|read_scientific|scan|handler_from_byte|legal_in_label)\b',r'\1_r')]),
('parserfields','S02 S03 E01 S01',[(r'\b(self|par|parser)\.errors\b',r'\1.failures'),(r'(?m)^(\s*(pub )?)errors: ',r'\1failures: '),]),
('dent',CG,[(r'\b(dent)\b',r'level'),(r'\bindent\b','indent')]),
('code',CG,[(r'\bself\.code\b',r'self.out'),(r'(?m)^(\s*(pub )?)code: ',r'\1out: ')]),
('scope','T01 T02',[(r'\bself\.current\b',r'self.cur'),(r'(?m)^(\s*(pub )?)current: ',r'\1cur: ')]),
('parser helpers',PP,[(r'\b(raw_block|unchecked_block|expect_semicolon|variable_declarators|for_init|property_list|array_elements|call_arguments|pattern_assign|rest_element|wrap_expression|template_string|bound_expression|alloc_at_loc|alloc_in_loc)\b',r'\1_r')]),
]
for n,p,s in J:
    if len(sys.argv)<2 or n in sys.argv[1:]: ren(n,p,s)
