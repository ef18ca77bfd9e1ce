"""Per property: level, what decides it (text for MANIFEST.json and DESIGN.md)."""
_B = ' B (bounded, on the real code) searches for failing inputs.'
LEVEL = {p: 'proof' for p in 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P18 P19 P20 P21 P22 P23'.split()}
for p in 'P17'.split():
    LEVEL[p] = 'other'
NOTE = {
 'P01': 'V: every builder function changes the stack of open nodes and the list of finished children exactly as its event says, under the builder and cache invariants; lemmas over those contracts: in terms of nested frames each event does what it says (token appended to the innermost frame, node closed over exactly its frame, checkpoint split), and the concatenated text of the children grows by exactly the token texts. Panic conditions of finish_node, start_node_at, finish. Assumed: Vec operations, hashbrown raw entries.',
 'P02': 'V: GreenNode::new folds the child lengths and records each child at the running sum; GreenToken::new stores the byte length; every accessor (kind, text_len, text, children, slice) returns what was stored; lemma: offsets are monotone; ThinArc::from_header_and_iter stores header, length and every item (loop invariant over the raw writes).',
 'P03': 'V: replace_child, insert_child, remove_child, splice_children of green nodes return the node of the same kind whose child list is the edited list (loops/iterator chains over mathematical sequences). Assumed: Vec::splice, iterator adaptors (std).',
 'P05': 'V: record invariant valid(t) is preserved by every constructor and every navigation step; offset_mut loop invariant (sum over the ancestors), index, text_range, parent, ancestors. NodeData::new and free are verified in the heap layer, and a lemma shows that a heap satisfying the heap invariant makes every record valid.',
 'P06': 'V: first/last child, next/prev sibling, children iterators and their by_kind forms (iterator position invariants: next child index), in place steps (to_next_sibling…), for both handle reuse and fresh-record branches.',
 'P07': 'V: Preorder/PreorderWithTokens step function against the event automaton (state = event to deliver; successor, skip), descendants as the Enter filter, ancestors, siblings.',
 'P08': 'V: first/last/next/prev_token against the document order of tokens (ghost prefix counts g_ntok; pre/post number of tokens before an element).',
 'P09': 'V: token_at_offset, covering_element, child_or_token_at_range, including the binary search and the panics (P22).',
 'P14': 'V: SyntaxNodePtr/AstPtr construction, resolution loop (search invariant: only ancestors with that range were passed), casts, equality.',
 'P15': 'V: each of the typed operations is verified to call the untyped one and to convert kinds/wrap handles (85 functions).',
 'P18': 'V: TokenAtOffset iterator/bias/map, WalkEvent, NodeOrToken: complete case analysis, no assumption beyond Option.',
 'P19': 'V: eq and hash of green elements against a structure class g_class (eq <=> same class; hashing is run twice on two elements of one class and must leave the hasher in one state), of handles, pointers and element enums. Lemmas by structural induction.',
 'P20': 'V: the green Children iterator: each operation against the remaining interval [lo,hi), nth/nth_back past the end, exact len, fold/rfold by loop invariants.',
 'P23': 'V: support::child, children, token and AstChildren against "first/all children from position lo that can be cast".',
 'P04': 'V: NodeCache::token and ::node against the set of keys: requested kind, text, children; result in the cache afterwards when cacheable; no two keys of equal kind and content; nothing is lost; every key is inserted, looked up and rehashed under its own hash (node_hash loop invariant). Assumed: hashbrown raw entries find a key that is in the map under the hash it was inserted with, when the hash is right and the predicate holds for it.',
 'P10': 'V: every operation of SyntaxText (len, is_empty, slice, contains_char, find_char, char_at, for_each/try_fold chunks, Display, conversion to String, comparison with strings and with other texts) against the text as a function from offsets to bytes. The chunk iterator delivers the non-empty pieces of the tokens in order (fold invariants: position reached, result so far), comparison of two texts zips two abstract chunk iterators (loop invariants of zip_texts). Lemma: the text of a tree at an element is the text of that element. Assumed: str operations of std (find, chars, starts_with, slicing and its panics) as specified in spec_text.py.',
 'P11': 'V (heap layer): detach, attach_child, respine, splice_children and the handle forms against the heap of records: the green element of the parent is the old one with exactly that child removed or inserted, each ancestor is the old one with exactly the child on the path replaced, every other record keeps its green element, exactly the later siblings are renumbered; splice_children by loop invariants (children left so far; each iteration attaches one item at the next position). The meaning of removed/inserted/replaced is the verified contract of the green edits (P03). Assumed: the iterator of new elements passed to splice_children does not itself edit the trees.',
 'P12': 'V (heap layer): the heap invariant (parent live, green element is the child of the parent at the index, sibling list sorted by index, one record per index, same root and mutability) is preserved by every function that writes a record (sll::link, unlink, adjust, NodeData::new, free, respine, detach, attach_child, splice_children, copies); lemma: every record of such a heap satisfies the invariant all navigation is verified under, so what a handle reports is what its place in the edited tree says. NodeData::new returns the existing record of that index when there is one, so two ways reach one record.',
 'P13': 'V: every edit leaves all records of immutable trees as they were and edits only marked, mutable records (frame postconditions of detach, attach_child, respine, splice_children); editing an immutable tree panics; clone_for_update builds a mutable copy with the same green element and lands on the element at the same path (recursion), clone_subtree makes a root at offset zero; immutable replace_with is a new green tree. Green elements are values: GreenNode functions take them by shared reference, and the Arc layer (P16) shows no write to a shared block except its count.',
 'P16': 'V: the heap layer (a record is freed exactly when no handle and no child refers to it; every access to a record obliges it to be live; the green element owned by a root is released once; lemma: when no reference is left, no record is), balance of handle units in every function of the cursor and typed layers, and the reference-counting protocol of the green layer (Arc, ThinArc: clone adds one, drop releases one and frees at zero, no access after). Where the edits panic, the heap invariant holds, so every live handle still denotes a live record. Not followed: the cleanup blocks of a panic (the compiler drops what the frame holds, each drop being under contract; B runs them), and the drop of the vectors and maps of builder and cache (std). The step from balanced functions to whole programs is the usual one for linear handles.',
 'P17': 'B: threads, and Miri with many schedules. V: the orderings and protocol of the Arc functions (clone Relaxed add with overflow abort, drop Release sub, Acquire load before the single free); the step from the protocol to race freedom is the usual argument, not proved here.',
 'P21': 'V: Display and Debug (both forms) of green, untyped and typed elements, of SyntaxText, and Serialize of nodes, tokens and children, against the list of pieces written / the list of serializer calls made; loop invariants of the alternate form (level = depth of the next event, one line per element entered); a failed write or call is handed on and nothing is written after it. Formatting is the piece model of spec_fmt.py: templates as rustc encodes them, no width or precision, Debug of kinds, ranges and strings as functions of the value.',
 'P22': 'V: the contracts of the lookups, pointer functions, copies, detach, attach_child, splice_children, replace_with, text slicing, checkpoints and finish state exactly when they panic (a path that panics must be one the contract allows, and one that returns must be one on which it must not panic); where detach, attach_child and splice_children panic, the heap invariant holds and immutable trees are as they were. Not followed: the cleanup blocks of a panic (B runs them).',
}
