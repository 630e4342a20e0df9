#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

CTX = "src/tool/syntaxis/syntaxis_context.rs"; CTX1 = "src/tool/v1/syntaxis_context.rs"
VIS = "src/tool/syntaxis/syntaxis_visitor.rs"; VIS1 = "src/tool/v1/syntaxis_visitor.rs"
LIS = "src/tool/syntaxis/syntaxis_listener.rs"; WALK = "src/tool/syntaxis/syntaxis_walker.rs"
LEX = "src/tool/syntaxis/syntaxis_lexer.rs"; LEX1 = "src/tool/v1/syntaxis_lexer.rs"
TERA = "src/tool/templates/target/rust/lexer.tera"
RC = "src/runtime/ast/rule_context.rs"; VOC = "src/runtime/vocabulary.rs"
GR = "src/tool/grammar/mod.rs"; GV = "src/tool/visitor/grammar_visitor.rs"; LRV = "src/tool/visitor/lexer_rule_visitor.rs"
PAR = "src/tool/parser/ll1_parser.rs"; PAR1 = "src/tool/v1/syntaxis_parser.rs"; PARK = "src/tool/syntaxis/syntaxis_parser.rs"
SER = "src/tool/serde_ast/mod.rs"; DRAW = "src/tool/gui/ast_drawer.rs"; HTML = "src/tool/templates/gui/ast.html"
J2 = "src/tool/syntaxis/syntaxis2.json"

p("C01", "Dispatch reaches the handler of the node's own rule kind",
  "Dispatching a visitor or a listener on a node of a grammar-file tree invokes exactly one handler: the one named after that node's own rule kind, with that same node, and the visitor hands back that handler's result. A node of an unknown kind is traversed by its children (visitor) or ignored (listener). The per-node accept, enter and exit methods call the handler of their own rule kind in the same way, in the hand-written and in the generated family alike.",
  ["inputs", "programs"], "all trees, all nine rule kinds and unknown ones, every visitor and listener implementation, both families",
  "the tests drive two visitors over one tree and never override most handlers; listeners and the generated visitor family are not exercised at all",
  [VIS, VIS1, LIS, CTX, CTX1, PARK, PAR1],
  [("rule-index match in visit / enter / exit", VIS), ("accept / enter / exit of each context", CTX), ("rule constants", PARK)],
  observe=["calls made on a user visitor or listener"])
p("C02", "Default traversal handles every child once, in order, balanced",
  "Default visiting of a node handles each of its children exactly once, left to right, by the child's own kind (terminal, rule or error node), asking the stop hook before each child and folding the child results, starting from the default result, through the aggregation hook; each per-rule default handler is that traversal, by default the latest result is the running one, no child is left out, a leaf gives the default result and listener hooks do nothing. Walking a node fires enter-every, enter, then all children in order (terminals and error nodes as an enter/exit pair), then exit, then exit-every, so every enter is matched by its exit, properly nested.",
  ["inputs", "programs"], "all trees, all visitor and listener implementations",
  "the tests only look at trees without error nodes and never check order, pairing or aggregation",
  [VIS, VIS1, WALK], [("visit_children", VIS), ("walk", WALK)], observe=["sequence of calls on a user visitor or listener"])
p("C03", "Typed accessors select children of exactly the kind they name",
  "Every typed accessor of a grammar-file node returns the children of the kind it is named after: single accessors the first such child or nothing, list accessors all of them in order. Each typed entry point of the bundled parser parses from the rule it is named after, and the tree it hands out answers the typed accessors under the same token and rule numbering as the lexer and table that produced it.",
  ["inputs"], "all trees and all 56 accessors of both families; all nine entry points",
  "tests reach a handful of accessors through one JSON tree; the typed entry points of the bundled parser are never called",
  [CTX, CTX1, PAR1, LEX, LEX1, PARK], [("accessor bodies", CTX), ("entry points", PAR1), ("token and rule constants", LEX1)],
  observe=["accessor return values"])
p("C04", "Child queries return exactly the matching children and never panic",
  "Querying a node's direct children by token type, error type or rule kind returns exactly the children of that node kind and type, in source order; the indexed form returns the i-th of these, or nothing when there are not that many. No query panics, whatever the tree and the index.",
  ["inputs"], "all trees, types and indices", "tests never query a missing index, an error node, or a mixed child list",
  [RC], [("get_terminals / get_errornodes / get_rule_contexts and indexed forms", RC)], observe=["query results"])
p("C05", "A node's extent and text cover exactly the tokens beneath it",
  "The start and stop token of a node are the first and last token (terminal or error) beneath it in document order, even when sub-rules at either edge are empty; the first and last terminal are likewise the outermost terminal leaves. The text of a node is exactly the input from where its start token begins to where its stop token ends, and is empty when it has no token.",
  ["inputs"], "all trees, including trees with empty rule nodes at any position",
  "no test calls any of these operations", [RC],
  [("get_start_token / get_stop_token / get_first_terminal / get_last_terminal / get_text", RC)], observe=["returned tokens and text"])
p("C06", "The vocabulary stays a consistent one-to-one naming of ids",
  "At every moment a vocabulary's name-to-id and id-to-name views of terminals, and separately of named nonterminals, are inverse to each other, and every named id is in the corresponding id set; ids 0 and 1 are the reserved start and stop terminals from creation. A registration succeeds exactly when neither its name nor its id is taken within its kind, and a refused registration changes nothing. Lookups answer from the view they are named after.",
  ["histories", "inputs"], "all sequences of registrations and lookups",
  "tests only make fresh, conflict-free registrations; refusal paths are never taken",
  [VOC], [("add_terminal / add_named_nonterminal / add_unnamed_nonterminal", VOC), ("private maps: only the three operations write them", VOC)],
  state=[("six maps and sets", "name/id views and id sets of terminals and nonterminals", VOC)], observe=["lookup results", "returned success flags"])
p("C07", "Every symbol gets its own id and the lexer table follows the ids",
  "Collecting the symbols of a grammar file gives every distinct token name and every distinct rule name its own id, consecutive in order of definition from the given first id. The lexer table handed to code generation has one entry per token, in id order with no gap, carrying exactly the id and name the vocabulary has (a token made from a quoted literal may carry a made-up name instead) and the token's pattern, with its delimiters removed and anchored at the start. A repeated definition of a token or a rule is reported and leaves ids, table and vocabulary untouched.",
  ["inputs", "histories"], "all grammar files, including repeated and degenerate definitions",
  "the tests load one grammar without repeated definitions and compare nothing",
  [GV, LRV], [("SymbolVisitor", GV), ("StringLiteralToTokenVisitor", GV), ("LexerRuleVisitor", LRV)],
  state=[("next_token_id / next_rule_id / data", "next free ids and the lexer table", GV)], observe=["vocabulary contents", "lexer table"])
p("C08", "EBNF lowering keeps the grammar's language",
  "Lowering a grammar gives each rule one production per alternative, holding in order exactly the symbols of that alternative's elements (none for epsilon). A parenthesised group becomes a nonterminal with exactly its alternatives, and an element followed by *, + or ? becomes a nonterminal deriving zero or more, one or more, or at most one of exactly that element, with a fresh id each time. Helper nonterminals are shared only between identical operands under the same operator, and the helper's own alternatives never both begin with the operand, so one-token lookahead can choose between them.",
  ["inputs"], "all grammar files: all nestings of groups, operators and references, and all orders in which tokens and rules get their ids",
  "one grammar is lowered and nothing is asserted; coinciding token and rule ids and most operators never occur",
  [GV], [("ProductionVisitor", GV), ("star / plus / question / block caches", GV)],
  state=[("caches", "operand to helper nonterminal", GV)], observe=["productions of the grammar", "helper ids"])
p("C09", "FIRST sets are the complete least fixpoint",
  "For every grammar, a production's FIRST set holds the FIRST sets of its leading symbols up to and including the first one that cannot vanish, and it is nullable exactly when all its symbols are; a nonterminal's is the union over its productions. The result is only handed out once a full pass over all productions has changed nothing, sets only ever grow, and a pass is only repeated after a real change, so the computation always ends with the least solution.",
  ["inputs"], "all grammars: any nullability pattern, recursion, production order",
  "tests compute the sets for one grammar and assert nothing", [GR],
  [("first_set", GR), ("get_first_set_for_non_epsilon_rule", GR)],
  state=[("per-nonterminal and per-production collections", "current approximation", GR)], observe=["returned sets"])
p("C10", "FOLLOW sets are the complete least fixpoint",
  "For every grammar, the start rule's FOLLOW set holds end-of-input; and for every occurrence of a nonterminal in a production, its FOLLOW set holds the FIRST set of the rest of that production and, exactly when that rest can vanish (or is empty), the FOLLOW set of the production's left side. The result is only handed out after a full pass without change, sets only grow, and a pass is only repeated after a real change.",
  ["inputs"], "all grammars and all occurrences of nonterminals", "tests compute the sets for one grammar and assert nothing",
  [GR], [("follow_set", GR), ("get_first_for_string", GR)], observe=["returned sets"])
p("C11", "The LL(1) table has exactly its entries, reproducibly, conflicts reported",
  "The prediction table maps a rule and a token to a production exactly when the token is in the production's FIRST set, or the production is nullable and the token is in its left side's FOLLOW set. Whenever two productions claim one cell, the conflict is reported. The same grammar gives the same table on every run: which production a conflicting cell holds never depends on hash iteration order.",
  ["inputs", "configurations"], "all grammars, all hash seeds", "one conflict-free grammar; the table is only printed",
  [GR], [("ll1_table", GR)], observe=["returned table", "standard output"])
p("C12", "The LL(1) parser's tree is the derivation of the tokens it consumed",
  "The tree the table-driven parser returns expands, at every node, the production the table gives for the node's rule and the next unread token, with one child per symbol in order. Every consumed token appears exactly once as a leaf, in input order, and the children of a helper (unnamed) rule are spliced in place, all of them, in order; a named rule appears as a node with its own id and name. Whenever a token is not of the type the production asks for, the mismatch is reported.",
  ["inputs"], "all grammars, tables and token sequences; both parser implementations", "one input is parsed and the tree only drawn",
  [PAR, PAR1], [("parse_ast", PAR), ("parse_ast", PAR1)], observe=["returned tree", "standard output"])
p("C13", "The scanner takes the longest match and its tokens tile the input",
  "Each scan yields the longest match of any token pattern at the current position, the earliest-listed pattern on a tie, and never an empty token. The token carries that pattern's type and name, exactly the matched text, byte range, its running number, and line/column extents that start where the previous token stopped and advance over the matched text (lines by its newlines, column restarting after the last one, counted in bytes like the range). The next scan continues right behind it, so tokens tile the input without gap or overlap and scanning ends.",
  ["inputs"], "all inputs, all pattern tables; the hand-written, the bundled generated and every newly generated scanner",
  "one input is scanned and printed; nothing is asserted about spans, ties or positions",
  [LEX, LEX1, TERA], [("scan", LEX), ("scan", LEX1), ("scan in the template", TERA)],
  state=[("cursor / position / token_index", "scanner state", LEX1)], observe=["returned tokens"])
p("C14", "End of input and unscannable input are signalled exactly once",
  "At the end of the input a generated scanner yields exactly one stop token, with an empty byte range at the end of the input, and from then on an error; text no pattern matches yields an error and moves nothing. Scanning everything returns, in order, every token of the requested channel except the whitespace and comment tokens, including the stop token, and reports the unscanned rest when it stops early.",
  ["inputs", "histories"], "all inputs and scan histories; all three scanners",
  "one fully scannable input; the stop token's fields and the error path are never looked at",
  [LEX, LEX1, TERA], [("end-of-input branch of scan", LEX1), ("scan_all_on_channel_tokens", LEX1), ("same in the template", TERA)], observe=["returned tokens", "standard output"])
p("C15", "Token constants, names and patterns line up in every scanner",
  "In each bundled scanner the i-th pattern, the name reported for it and the constant of that name all denote the same token type, names and types are distinct, and every pattern is tied to the scan position in all of its alternatives. The bundled generated scanner and parser carry exactly the tokens, patterns and rule numbers that the bundled grammar tree defines, the bundled grammar trees use the hand-written family's numbering, and tokens the two scanners know by the same name match the same texts.",
  ["inputs", "configurations"], "all table rows of both scanners, all nodes of the bundled grammar trees",
  "nothing compares the tables; a misaligned row only shows for inputs that use that token",
  [LEX, LEX1, PARK, PAR1, J2, "src/tool/syntaxis/syntaxis.json"], [("regex_list / token_names / constants", LEX), ("same, generated", LEX1), ("grammar trees", J2)], observe=["token types and names of scanned tokens"])
p("C16", "Generated scanners are right for every token table",
  "For every token table, the scanner generated from the template declares for each token, in table order, one constant with its type, its pattern, and its name at the matching index, after the two reserved ones. The generated source is valid whichever tokens the grammar has: it refers to no token that the table does not define, and its pattern literals reproduce the patterns unchanged.",
  ["inputs", "programs"], "all token tables", "the template is rendered for one table and the result is not compared",
  [TERA, GV], [("template loops", TERA)], observe=["generated source"])
p("C17", "Loading a tree from JSON is faithful or an error, never a panic",
  "Loading a tree from a JSON text or reader yields, for every rule object, a node with its index, name and all children in order, and for every terminal object a token with its type, name and text, or the fixed placeholder text when it has none. Malformed JSON, or an object lacking a required field of the required type at any depth, gives an error: nothing is skipped, nothing is guessed and nothing panics.",
  ["inputs"], "all JSON documents", "two well-formed documents are loaded", [SER],
  [("from_str / from_reader", SER), ("parse_rule", SER), ("parse_terminal", SER)], observe=["returned tree or error"])
p("C18", "Drawings show every node and text cannot break out of them",
  "Drawing a tree renders every node exactly once in order, with its name, and its text or its children, and the complete page is written to the given file. Every name and text that goes into the page's script is escaped so that it cannot end its string literal, start an interpolation, or close the script element, whatever it contains.",
  ["inputs"], "all trees and all token texts and names", "two harmless trees are drawn and the pages are not looked at",
  [DRAW, HTML], [("dump", DRAW), ("escape", DRAW), ("draw", DRAW)], observe=["written file"])
p("C19", "Only drawing touches the outside world; nothing is hidden state",
  "Apart from drawing, which reads its templates and writes the one file it is given, no library operation touches the file system, environment, network, processes, threads or clock; all others only compute and print diagnostics to standard output. There is no global mutable state and no unsafe code, so equal inputs give equal results on every call (only the order in which a printed grammar lists its productions is left open).",
  ["programs", "histories"], "all public operations and everything they reach", "tests cannot observe the absence of effects",
  ["src/lib.rs", DRAW, GR, GV, SER], [("call graph of the library", "src/lib.rs"), ("ASTDrawer", DRAW)], observe=["system effects"])
p("C20", "Printed grammars, trees and tokens show everything, in order, separated",
  "Printing a grammar shows every production as its left side followed by all symbols of its right side in order, each set apart from its neighbour, under their vocabulary names (unnamed rules by id). Printing a tree shows every node's name and all children in order; printing a token shows its number, byte range, text, name, type and both positions.",
  ["inputs"], "all grammars, trees and tokens", "tests print one grammar and one tree and compare nothing",
  [GR, RC, "src/runtime/ast/ast_context.rs", "src/runtime/ast/terminal_context.rs", "src/runtime/ast/error_context.rs", "src/runtime/token.rs"],
  [("Display implementations", GR)], observe=["printed text"])
p("C21", "Quoted literals become tokens that match exactly their text",
  "Every quoted literal in a grammar file, at any nesting depth, becomes exactly one token however often it occurs, and the pattern put into the lexer table for it matches exactly the literal's text: characters special to regular expressions are taken literally. A reference to the literal in a rule resolves to that token.",
  ["inputs"], "all grammar files and literals", "the bundled grammar has no quoted literal, so none of this code ever runs",
  [GV, LRV], [("StringLiteralToTokenVisitor", GV), ("StringLiteralVisitor", LRV), ("literal lookup in ProductionVisitor", GV)], observe=["vocabulary", "lexer table", "productions"])
p("C22", "The parser accepts exactly the grammar's language",
  "For every conflict-free grammar, the table-driven parser returns a tree for every sentence of the grammar consuming all of it, and signals an error for every other token sequence.",
  ["inputs"], "all grammars and token sequences", "one sentence is parsed", [PAR, PAR1, GR], [("parse_ast", PAR)], observe=["returned tree"])
p("C23", "Recursion depth is bounded for every input",
  "No tree, grammar or token sequence makes loading, lowering, parsing, walking or drawing run out of stack: deep nesting and left-recursive grammars end in a result or an error.",
  ["inputs"], "all trees, grammars and token sequences", "shallow inputs only", [PAR, SER, WALK, DRAW, RC], [("recursive descent", PAR)], observe=["process outcome"])
p("C24", "Copies and comparisons of values regard everything they hold",
  "A copy of a token, a tree node or subtree, a grammar symbol or a production equals the original in every field, at every depth, with all children in order. Two productions or symbols are equal exactly when they are of the same kind and agree in every part, the order on them ranks two as equal only then, and their hash depends on nothing but their value; so sets of productions lose none and sorting them leaves nothing to chance.",
  ["inputs"], "all values", "the tests copy and compare a few values of one grammar", [GR, "src/runtime/token.rs", RC],
  [("Clone, PartialEq, Ord and Hash of Production and ProductionItem", GR), ("Clone of Token and Position", "src/runtime/token.rs"), ("Clone of RuleContext", RC)], observe=["copied values", "members and order of sets of productions"])
p("C25", "Operations panic only when their input breaks a stated precondition",
  "Querying, walking, visiting and printing trees and tokens, building and querying a vocabulary, scanning any text, and loading a tree from any JSON never panic: an index out of range, an empty node, an unknown id, a number that would go below zero or a text with multi-byte characters is handled. The other operations panic only for these reasons: FIRST, FOLLOW and table for a nonterminal missing from the vocabulary or from the given sets; lowering for an undefined name, a tree node lacking a required part, a literal token without its delimiters or a pattern that is no regular expression; parsing when the table has no entry or the tokens run out at the cursor; naming or printing a terminal that has no name; drawing when the templates or the output file cannot be used; a node's text taken from an input that is not its tokens' own. A token that is not the expected one is reported, not a panic.",
  ["inputs"], "all inputs of all public operations", "tests call the operations with well-formed inputs only",
  [RC, "src/runtime/vocabulary.rs", SER, LEX, LEX1, GR, GV, LRV, PAR, PAR1, DRAW, WALK], [("all public operations", "src/lib.rs")], observe=["panics"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
