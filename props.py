"""Per property: Verus modules whose obligations decide it, what stays bounded, budgets."""
import json, os, re
TEXT = ['l_std', 'l_text', 'm_text']
DED = 'contract-based deductive verification (Verus) of functions extracted from the current source'
BND = 'bounded check of the real code against an independent model (stand-in; not counted as proved)'
def p(modules, level, note, bounded=(), technique=None, **k):
    return dict(modules=modules, level=level, note=note, bounded=list(bounded), technique=technique or (DED if modules else BND), **k)
PROPS = {
 'C01': p(TEXT, 'proof', 'unescape(escape(s)) == s and its two siblings are lemmas (thm_c01_*) over the contracts of escape, attribute_escape, text_escape, string_insert and unescape, discharged for all strings; std string methods have assumed contracts'),
 'C02': p(TEXT, 'proof', 'safety of the escaped text (thm_c02_*) over the same contracts'),
 'C03': p(TEXT, 'proof', 'unescape equals the left-to-right decoding function unesc for all strings'),
}

DOM = TEXT + ['l_dom', 'l_spec', 'm_node', 'l_name', 'm_attr']
EDIT = DOM + ['l_edit', 'm_edit']
ITER = EDIT + ['l_iter', 'm_iter']
def rx(*names): return '^(' + '|'.join(re.escape(n) if not n.endswith('$') else n[:-1] for n in names) + ')$'
def el(s): return ['Element::' + n for n in s.split()]
NEW = el('new new_from_name new_with_attributes new_with_attributes_and_text new_with_attributes_and_children new_with_text new_with_children') + ['<Element as Default>::default']
PROPS['C01']['own'] = rx('escape', 'attribute_escape', 'text_escape', 'string_insert', 'unescape')
PROPS['C02']['own'] = rx('escape', 'attribute_escape', 'text_escape')
PROPS['C03']['own'] = rx('string_insert', 'unescape')
NODES = 'only the four node kinds of this crate implement Node (a foreign implementation of the public trait is outside)'
SIZES = 'sizes fit usize: the nodes of a tree are distinct heap allocations (ax_tree_size, ax_vec_size, ax_string_size)'
PURE = 'predicates passed to searches and removals are functions (Fn) that answer the same for the same node'
PROPS['C08'] = p(EDIT, 'proof', 'every child-list edit and constructor has a postcondition giving the exact resulting child sequence (runs of text merged, then blank text dropped)', assume=[NODES, SIZES],
    own=rx('Text::is_whitespace', 'Text::concat', 'Text::new', r'<Text as From<.*>>::from', *el('cleanup_text_nodes append append_boxed append_all insert set_text clear_children reverse_children'), *NEW))
PROPS['C09'] = p(ITER + ['l_rm', 'm_rm', 'l_eq', 'm_eq'], 'proof', 'each removal has a postcondition giving the exact remaining child sequence (recursively for remove_all*), the count or node returned, and the unchanged rest', assume=[NODES, SIZES, PURE],
    own=rx(*el('remove remove_by remove_element remove_elements remove_elements_by_name remove_all remove_all_elements child_elements_mut')))
PROPS['C11'] = p(DOM, 'proof', 'constructors and setters refuse content with the terminator; every place in the crate that builds or writes the two private fields is under contract (guard)', assume=[NODES],
    closed=['field comment', 'field cdata', 'build Comment', 'build CData'],
    own=rx('Comment::new', 'Comment::set_content', 'Comment::get_content', 'CData::new', 'CData::set_text', 'CData::get_content', r'<(Comment|CData) as (Node|From<.*>)>::.*$'))
PROPS['C12'] = p(EDIT, 'proof', 'name checks accept exactly the XML names (regex literal read from the source), set_attr/remove_attr/clear_attributes/constructors are exact map operations', assume=['the meaning of the regular expression literals is the regex-syntax parse of the source text'],
    own=rx(*el('check_elem_name check_attr_name set_attr get_attr remove_attr clear_attributes attributes'), *NEW))
SER = ITER + ['l_eq', 'm_eq', 'l_ser', 'm_ser', 'l_doc', 'm_doc']
PROPS['C13'] = p(SER, 'proof', 'eq/node_eq/hash/clone equal the structural spec; reflexivity, symmetry, transitivity, clone-equals-original and equal-hash are lemmas', assume=[NODES, 'independence of a clone: the clone owns its tree (Rust ownership, no shared interior mutability in the types)'],
    own=rx('clone_node', 'node_eq', r'<.* as (Clone|PartialEq|From<Box<dynNode>>)>::.*$'))
PROPS['C16'] = p(ITER, 'proof', 'every iterator and search has a postcondition on the exact sequence of nodes reached (mutable ones through the prophesied final tree); completeness and uniqueness of the recursive ones are lemmas', assume=[NODES, PURE],
    own=rx(*el('children children_mut child_elements child_elements_mut elements_by_name elements_by_name_mut elements_by_namespace elements_by_namespace_mut elements_by_namespace_prefix elements_by_namespace_prefix_mut first_element_by_name first_element_by_name_mut children_recursive search all_children search_elements search_elements_by_name search_text search_comments namespace namespace_prefix name')))
PROPS['C18'] = p(DOM, 'proof', 'every is_*/as_*/as_*_mut/node_type/boxed of the four kinds has a postcondition naming the same node', assume=[NODES],
    own=rx(r'<(Element|Text|Comment|CData) as Node>::(is_\w+|as_\w+|boxed|node_type)$', 'TypeCastError::new'))
PROPS['C19'] = p(DOM, 'proof', 'text() equals the recursive concatenation of the text nodes', assume=[NODES, SIZES], own=rx(r'<(Element|Text|Comment|CData) as Node>::text$'))
PARSER = SER + ['m_err', 'l_tok', 'm_tok', 'l_elt', 'm_elt', 'l_tree', 'm_tree', 'l_parse', 'm_parse']
TOK = ('next_tag', 'quote_aware_find', 'nested_quote_aware_find_close', 'strip_tag', 'check_element_tag', 'real_text')
PT = r'ParseTree(Node)?::.*$'
RX = 'the meaning of the regular expression literals is the regex-syntax parse of the source text'
ARENA = 'the contract of the arena map of the parser (HashMap<usize, _>), and that an arena has fewer than usize::MAX entries'
PROPS['C10'] = p(PARSER, 'proof', 'namespace of constructed, parsed and added elements: exact context and default namespace in every postcondition', assume=[NODES, RX, ARENA],
    own=rx('parse_new_element', PT, *el('apply_xmlns_context_to_child_node apply_xmlns_context_to_child_element set_namespace_context default_namespace namespace namespace_prefix get_namespace_context xmlns_context_from_attributes namespace_prefixes append append_boxed append_all insert'), *NEW))
WRITE = rx(*el('to_string_with_prefix_and_indent tag_name'), 'attribute_order', 'validate_indent', 'attribute_escape', 'text_escape', 'escape', 'Document::to_string', 'Document::to_string_with_indent', r'<.* as (Display|Debug)>::fmt$', r'<.* as Node>::to_string_with_indent$')
PROPS['C14'] = p(SER, 'proof', 'the serializer equals the recursive spec ser_elem over the tree view (names, attributes, kinds, contents, order); canonical form and whitespace rules are lemmas over ser_elem (thm_c14_*)', assume=[NODES, SIZES], own=WRITE)
PROPS['C15'] = p(PARSER, 'proof', only={'^parse_str$': r'p_prolog|Declaration|declaration|DTD|dtds'}, note= 'constructors and printing of Declaration and DTD, document text = declaration, doctypes, root on lines of their own, setters frame the rest', assume=[NODES, RX, ARENA],
    closed=['field decl_str', 'field dtd_str', 'build Declaration', 'build DTD'],
    own=rx('parse_str', 'next_tag', r'Declaration::.*$', r'DTD::.*$', r'Document::.*$', r'<(Declaration|DTD|Document) as .*$'))
PROPS['C17'] = p(PARSER + ['l_io', 'm_io'], 'proof', 'each entry point has a postcondition relating it to parse_spec of the text read, or to doc_text of the document written', assume=[NODES, SIZES, RX, ARENA, 'std::fs, Read and Write behave as the assumed contracts in contracts/48_io.rs say; no other process changes the file between the read and the answer'],
    own=rx('parse_stream', 'parse_filepath', r'Document::write_to_.*$', '<KissXmlError as From<std::io::Error>>::from'))
PROPS['C04'] = p(PARSER, 'proof', panics=True, note= 'no obligation of panic freedom (unwrap, index, slice on a character boundary, arithmetic overflow) or termination (decreases) of parse_str, everything it calls, and the Result-returning constructors is left open', assume=[NODES, SIZES, RX, ARENA, 'regex matching, allocation and the compiler-generated recursive drop do not fail (stack exhaustion on extreme nesting is outside)'],
    own=rx('parse_str', *TOK, 'line_and_column', 'abbreviate', 'quote_aware_split', 'join_spaced_attributes', 'parse_new_element', 'unescape', 'string_insert', PT, r'.*Error.*::(new|from)$', 'Comment::new', 'CData::new', 'Declaration::from_str', 'DTD::from_string', *el('check_elem_name check_attr_name xmlns_context_from_attributes append append_boxed cleanup_text_nodes'), *NEW))
PROPS['C06'] = p(PARSER, 'proof', 'parse_str returns Ok exactly on the texts for which the recursive definition parse_spec has a document, and lemmas (thm_c06_*) over parse_spec', assume=[NODES, SIZES, RX, ARENA],
    own=rx('parse_str', *TOK, 'quote_aware_split', 'join_spaced_attributes', 'parse_new_element', PT, *el('tag_name check_elem_name check_attr_name'), 'Declaration::from_str', 'DTD::from_string'))
PROPS['C07'] = p(PARSER, 'proof', 'the document parse_str returns equals the one parse_spec reads off the text (kinds, contents, order, nesting, names, attributes)', assume=[NODES, SIZES, RX, ARENA],
    own=rx('parse_str', *TOK, 'quote_aware_split', 'join_spaced_attributes', 'parse_new_element', 'unescape', 'string_insert', PT, 'Text::new', 'Comment::new', 'CData::new', *el('append append_boxed cleanup_text_nodes apply_xmlns_context_to_child_node apply_xmlns_context_to_child_element'), *NEW))
PROPS['C06']['modules'] += ['l_tagx', 'l_gram']
PROPS['C07']['modules'] += ['l_tagx']
PROPS['C05'] = p(PARSER + ['l_tagx', 'l_round'], 'proof', 'thm_c05: whatever parse_spec reads off a text, parse_spec reads the same document off what doc_ser writes for it with any indent (induction over trees and texts, no bound); thm_c05_client states it for parse_str, Document::to_string_with_indent and Document == against their contracts',
    assume=[NODES, SIZES, RX, ARENA, 'inputs of the known finding of C15 (a second <?xml... right behind the first tag) are outside the contract of parse_str and only explored'],
    own=WRITE[:-2] + '|' + rx('parse_str', *TOK, 'quote_aware_split', 'join_spaced_attributes', 'parse_new_element', 'unescape', 'string_insert', PT, '<Document as PartialEq>::eq', '<Element as PartialEq>::eq', 'Declaration::from_str', 'DTD::from_string', 'Text::new', 'Comment::new', 'CData::new', *el('check_elem_name check_attr_name append append_boxed cleanup_text_nodes apply_xmlns_context_to_child_node apply_xmlns_context_to_child_element xmlns_context_from_attributes'), *NEW)[2:])
PROPS['C20'] = p(PARSER + ['l_tagx', 'l_round', 'l_build', 'l_hist'], 'proof', 'thm_c20: for every document whose tree says the same as its own tags (rd_doc), parse_spec of what doc_ser writes is that document; thm_c20_client and thm_c20_doc state it for Document::new, Document::to_string_with_indent, parse_str and Document == against their contracts; thm_c20_plain: every tree built without namespaces is such a tree; histories (54_hist.rs, client functions checked against the contracts of the real ones): thm_c20_new_root, thm_c20_new_child, thm_c20_append/append_boxed/append_all/insert/set_text/clear_children/reverse/set_attr and thm_c20_inner keep such a tree one, thm_c20_plain_new/append/append_all/insert keep a tree without namespaces one',
    assume=[NODES, SIZES, RX, ARENA], own=PROPS['C05']['own'])
for i in range(4, 21):
    if 'C%02d' % i not in PROPS: PROPS['C%02d' % i] = p([], 'exploration', 'bounded stand-in; contracts being extended')
RULES = {k: 'enumerated inputs (all words over a small alphabet) plus seeded random inputs and API histories; a case counts once per distinct input, inputs of at most one byte are not counted' for k in PROPS}
KF = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known-findings.jsonl')
def known(prop, inp):
    for l in open(KF):
        l = l.strip()
        if l.startswith('{'):
            d = json.loads(l)
            if d.get('status') == 'known' and d['property'] == prop and d['input'] == inp: return d['what']
    return None
