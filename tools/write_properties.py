import json
P=[]
def p(id,title,statement,qtext,why,files,mech,observe,over=("inputs",),state=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
      "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":observe,"hook_needed":None}})
ANY="every document, that is every Unicode string"
TREE="every tree that can be built through the public constructors: any shape, labels, texts, brackets and line numbers"
A1="src/ast1/document.rs"; A2="src/ast2/document.rs"; A3="src/ast3/document.rs"; MB="src/ast3/mathsblock.rs"; PA="src/ast3/paragraph.rs"
p("C01","Stage 1 reproduces the document",
 "Whenever stage 1 accepts a document, displaying the result gives the document back character for character, except that comments (an unescaped % up to the end of its line) are gone. Reading the displayed text again is accepted and gives the same tree.",
 ANY,"The tests round-trip a handful of fixed snippets; whitespace before arguments, escapes, comments and bracket kinds interact for every string.",
 [A1,"src/ast1/command.rs","src/ast1/scope.rs","src/ast1/scopevariant.rs"],[("FromStr and Display of the stage 1 document",A1)],["ast1::Document::from_str","Display"])
p("C02","No input makes a stage panic or hang",
 "Reading any string at any implemented stage returns a document or an error, it never panics, overflows or fails to terminate. The same goes for displaying, validating, counting the lines of and lowering whatever was read.",
 ANY+", within the native stack's nesting depth","Absence of a panic is a claim about all inputs; the tests only see those they list.",
 [A1,A2,A3,MB,PA],[("indexing, unwraps and line arithmetic of the parsers",A1),("environment matching",A2),("maths and paragraph splitting",MB)],["from_str","Display","Validate::validate","Lines::lines","From/TryFrom between stages"])
p("C03","Stage 1 line numbers are right",
 "In every document stage 1 accepts, each chunk at every depth carries the line it starts in (counted within the bracket group it belongs to, whose opening bracket's line is line 1). Each error of stage 1 carries the line in the document of the construct it is about.",
 ANY,"Line numbers depend on every newline in arguments, scopes, comments and escapes before a chunk; the tests fix a few layouts.",
 [A1],[("line counting while reading",A1)],["Chunk::line_no","Error::line"],state=[("line_no","line of a chunk","src/ast1/chunk.rs")])
p("C04","Stage 1 structure and acceptance",
 "Stage 1 splits a document into texts, bracket scopes and commands (a backslash and one non-letter, or a letter and all that follows up to whitespace, a bracket or an escape; then its arguments, with the whitespace before each) exactly as a direct reading of the format does, with bracket kinds matched by kind and escaped brackets being ordinary. It rejects exactly the documents in which a scope or argument is not closed, or a closing bracket directly follows a command that is a word, with the matching kind of error.",
 ANY,"The grammar is a claim about all strings; tests cover the common shapes only.",
 [A1,"src/ast1/scopevariant.rs"],[("the character loop",A1),("bracket matching","src/ast1/scopevariant.rs")],["ast1::Document::from_str"])
p("C05","Stage 2 reproduces the document",
 "Whenever stage 2 accepts a document, displaying the result gives the document back without its comments, including the whitespace around the labels of environments. Reading the displayed text again is accepted and gives the same tree.",
 ANY,"Tests use fixed environments; whitespace, arguments and nesting of environments vary over all strings.",
 [A2,"src/ast2/environment.rs"],[("building and displaying environments","src/ast2/environment.rs")],["ast2::Document::from_str","Display"])
p("C06","Lowering stage 2 gives stage 1",
 "Lowering what stage 2 read gives exactly what stage 1 reads from the same document, line numbers included. Lowering any valid stage 2 document a program built keeps its text, and every chunk of the result carries the line it starts in.",
 ANY+"; "+TREE,"Tests lower one or two documents.",
 [A1,"src/ast1/command.rs","src/ast1/scope.rs","src/ast2/chunk.rs","src/ast2/environment.rs"],[("From<ast2::Document>",A1),("IntoChunks of environments","src/ast2/chunk.rs")],["ast1::Document::from(ast2::Document)"],over=("inputs","programs"))
p("C07","Environments are the matching begin/end pairs",
 "Stage 2 turns each begin command and the end command that matches it, at the same bracket level and properly nested, into one environment with that label, the remaining arguments and what is in between. It rejects exactly the documents stage 1 rejects, and those with an unmatched or wrongly labelled begin or end, one without a label in curly brackets, or an end with more than its label, with the matching kind of error.",
 ANY,"Tests have a few nestings; label equality, argument counts and nesting vary without bound.",
 [A2,"src/ast2/environment.rs","src/ast2/chunk.rs"],[("TryFrom<ast1::Document>",A2)],["ast2::Document::from_str"])
p("C08","Stage 2 line numbers are right",
 "In every document stage 2 accepts, each chunk at every depth carries the line it starts in, counted within the group, argument or environment body it belongs to. Each error of stage 2 carries the line in the document of the construct it is about.",
 ANY,"Lines depend on newlines in labels, arguments and bodies before a chunk.",
 [A2,"src/ast2/environment.rs"],[("line arithmetic when forming environments",A2)],["Chunk::line_no","Error::line"])
p("C09","Stage 3 reproduces the document",
 "Whenever stage 3 accepts a document that has a document environment, displaying the result gives the document back without its comments, including everything before and after that environment. Reading the displayed text again is accepted and gives the same result.",
 ANY+" (without a document environment an empty one is appended: a known finding)","Tests round-trip a few complete documents.",
 [A3,MB,PA],[("splitting and displaying the sections",A3)],["ast3::Document::from_str","Display"])
p("C10","Lowering stage 3 gives stage 2, and back",
 "Lowering what stage 3 read gives what stage 2 reads from the same document, up to adjacent texts, with the same text and line numbers; raising it again gives the same stage 3 document. Lowering any valid stage 3 document a program built keeps its text, and every chunk of the result carries the line it starts in.",
 ANY+"; "+TREE,"Tests lower one or two documents.",
 [A2,"src/ast3/chunk.rs",MB,"src/ast2/chunk.rs","src/ast2/scope.rs","src/ast2/command.rs"],[("From<ast3::Document>",A2),("IntoChunks",MB)],["ast2::Document::from(ast3::Document)","ast3::Document::try_from"],over=("inputs","programs"))
p("C11","Maths blocks are recognised exactly",
 "Stage 3 turns each properly delimited $..$, $$..$$, \\(..\\) and \\[..\\], at one bracket level and also within arguments, scopes, environments and other maths, into one maths block of that kind with everything in between as its content. It rejects exactly the documents stage 2 rejects, those with a bad document class, and those in which maths is not closed or closed without being open, with the matching kind of error; the same goes for stage 2 trees a program built.",
 ANY+"; "+TREE,"Dollars and brackets combine across texts, commands and nesting in more ways than tests list.",
 [MB,"src/ast3/scope.rs","src/ast3/environment.rs","src/ast3/command.rs"],[("MathsBlock::from_chunks",MB)],["ast3::Document::from_str"])
p("C12","Paragraph breaks are recognised exactly",
 "In stage 3 a run of whitespace that contains two newlines or more is one paragraph break, from its first newline up to its end, at every depth and whatever kind of whitespace it contains. All other text stays as it is, no text is empty, and none contains a blank line, in whatever was read and in chunks a program built.",
 ANY+"; "+TREE,"Unicode whitespace, tabs, carriage returns and breaks at the borders of texts are not in the tests.",
 [PA,MB],[("Paragraph::from_chunks",PA)],["ast3::Document::from_str"])
p("C13","Document class and its options",
 "The class of a document is the content of the curly argument of its documentclass command at the top level before the document environment, and its options are the comma separated entries of the other arguments, in order, each split into surrounding whitespace, key and (after the first equals sign) value. A second class, or documentclass with two curly arguments, is rejected.",
 ANY,"Whitespace around keys, equals signs and commas varies for every string.",
 [A3],[("parsing of the options",A3)],["ast3::Document::decompose"])
p("C14","lines() counts the displayed lines",
 "The line count of any document, chunk, scope, environment or maths block is one more than the number of newlines it displays, whether it was read or built by a program.",
 ANY+"; "+TREE,"The counters re-implement Display for every type; tests compare none of them.",
 [A1,A2,A3,"src/ast1/command.rs","src/ast2/command.rs","src/ast2/environment.rs","src/ast3/command.rs","src/ast3/environment.rs",MB],[("Lines implementations","src/traits/lines.rs")],["Lines::lines"],over=("inputs","programs"))
p("C15","Validation accepts exactly the valid trees",
 "A tree is accepted by validation, and by the checked constructors, exactly if no text or label in it at any depth holds a character that would need escaping (a label of one character may be any), no stage 2 or 3 command is begin or end, each paragraph break is whitespace with two newlines or more, no stage 3 text contains a blank line, and the chunks of a document (of each section, in stage 3) carry the lines they start in, counted from 1. An error that is reported names a fault the tree has; what was read from text is valid but for such characters.",
 TREE+"; "+ANY,"Validation is recursive over all tree shapes; tests do not exercise it.",
 ["src/ast1/document.rs","src/ast1/chunkvariant.rs","src/ast1/command.rs","src/ast2/document.rs","src/ast2/chunkvariant.rs","src/ast2/command.rs","src/ast2/environment.rs","src/ast3/chunkvariant.rs","src/ast3/document.rs",MB],[("Validate implementations","src/traits/validate.rs")],["Validate::validate","new"],over=("programs","inputs"))
p("C16","Pushing to a document",
 "A push adds the chunk at the end, at the line after what is there (or the line given), and merges a text into a text before it. A checked push is accepted exactly if what is pushed and the document it leads to are valid, and a refused push changes nothing, so that checked pushes alone lead to a valid document that displays what was pushed.",
 TREE+", and every sequence of pushes","Histories of pushes are not tested beyond one or two.",
 [A1,A2,A3],[("push*, push_chunk*",A1),("push_body, push_preamable, push_trailing",A3)],["push","push_unchecked","push_chunk","push_chunk_unchecked"],over=("histories","programs"))
p("C17","Stage 3 line numbers are right",
 "In every document stage 3 accepts, each chunk at every depth carries the line it starts in, counted within the section (preamble, body, trailing), bracket group, environment body or maths block it belongs to, each of which begins at line 1. Each error of stage 3 carries the line in the document of the construct it is about.",
 ANY,"Lines run through sections, maths and paragraph breaks; the tests fix a few layouts.",
 [A3,MB,PA],[("line arithmetic",MB),("sections",A3)],["Chunk::line_no","Error::line"])
p("C18","Sections of a document",
 "The first document environment at the top level is the body; everything before it is the preamble and everything after it the trailing section, with nothing lost, duplicated or moved. Its arguments and the whitespace in its begin and end are kept, and without one all is preamble.",
 ANY,"Tests use one well formed document.",
 [A3],[("TryFrom<ast2::Document>",A3)],["chunks_preamable","chunks_body","chunks_trailing","decompose"])
p("C19","Comments change nothing",
 "At every stage a document reads like the same document with the text of its comments (from an unescaped % up to, but not including, the end of the line) removed, with the same tree, the same line numbers and the same error.",
 ANY,"Comments can hold any character anywhere; the tests have two.",
 [A1],[("comment handling of the character loop",A1)],["from_str of every stage"])
p("C20","Brackets and their kinds correspond",
 "A character opens (closes) a scope exactly if it is one of {([ (})]), the kind obtained from it displays as that pair, and kinds keep their brackets when converted between stages in either direction.",
 "every Unicode character, every kind","A mix-up of two kinds shows only where that kind is used.",
 ["src/ast1/scopevariant.rs","src/ast2/scopevariant.rs","src/ast3/scopevariant.rs"],[("ScopeVariant","src/ast1/scopevariant.rs")],["is_opening","is_closing","from_opening","from_closing","open","close"])
p("C21","A built tree displays and returns its parts",
 "Whatever a program builds displays its parts in order, with nothing added but the syntax of each construct. Accessors and decompose give back exactly the parts it was made of.",
 TREE,"Tests look at a few accessors.",
 ["src/ast1/chunk.rs","src/ast1/command.rs","src/ast1/scope.rs","src/ast2/environment.rs","src/ast3/document.rs",MB],[("Display, accessors, decompose",A3)],["Display","decompose","chunks","label","arguments"],over=("programs",))
p("C22","Raising a built tree",
 "Converting a stage 1 tree a program built to stage 2, or a stage 2 tree to stage 3, gives the tree that what it displays stands for: the same text, the same structure and line numbers as the reference reading, or the matching error at its line. Scopes, commands and environments converted alone come out as they do within a document.",
 TREE+" whose line numbers are right and in which no two texts are adjacent","Tests raise only what was read from text.",
 [A2,"src/ast2/chunk.rs","src/ast2/command.rs","src/ast2/scope.rs",A3,"src/ast3/command.rs","src/ast3/scope.rs","src/ast3/environment.rs",MB],[("TryFrom<ast1::Document>",A2),("TryFrom<ast2::Document>",A3)],["ast2::Document::try_from","ast3::Document::try_from","Scope::try_from","Command::try_from","Environment::try_from"],over=("programs",))
p("C23","Parts lower on their own",
 "Lowering a single chunk, scope, command, environment or maths block that a program built keeps its text, and each chunk of the result carries the line it starts in, counted from the line of the part. Every way to lower a part gives the same result.",
 TREE+" that is valid; any line number below 2^31","Tests lower whole documents only.",
 ["src/ast1/scope.rs","src/ast1/command.rs","src/ast1/into_chunks.rs","src/ast2/chunk.rs","src/ast2/environment.rs","src/ast2/scope.rs","src/ast2/command.rs","src/ast3/chunk.rs",MB],[("IntoChunks",A2),("From between stages","src/ast2/scope.rs")],["IntoChunks::into_chunks","Scope::from","Command::from","Environment::from"],over=("programs",))
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,x['id']
m={"version":1,"setup_cmd":"./check.py --setup",
 "checks":[{"property":x["id"],"quick_cmd":"./check.py %s quick"%x["id"],"thorough_cmd":"./check.py %s thorough"%x["id"],
  "technique":"symbolic execution of the crate's LLVM IR, Z3 deciding every path and assertion" ,
  "level":"model_checking",
  "level_note":"Holds for every value of the holes of every template listed under bounds in the evidence (a bounded result; nothing is claimed outside). Trusted: rustc's LLVM IR, the interpreter (samples of its paths are compared with the real crate on every run), Z3, and the reference reading in harness/src."}
  for x in P],"not_applicable":[],
 "notes":"No hooks: everything checked is reachable through the public API. Stage 4 is todo!() throughout and has no property."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
