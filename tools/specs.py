"""The properties, and which harness decides each of them, from which sources of /repo, within which bounds.

properties.jsonl and MANIFEST.json are written from this file by tools/gen.py."""
import os
SPECS = {}
NOT_APPLICABLE = []          # (property dict, reason)

def prop(pid, title, statement, over, quant, tests, files, mech, harnesses, technique, note,
         state=(), observe=(), level="model_checking", rule="", assumptions=()):
    SPECS[pid] = dict(title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                      state=state, observe=observe, harnesses=harnesses, technique=technique, level=level,
                      level_note=note, rule=rule, assumptions=list(assumptions))

def H(name, src, repo, quick, thorough=None, mode="asan", **kw):
    """One harness: its sources in harness/, the sources of /repo it is built with, its bounds."""
    b = dict(mode=mode)
    for k in ("std", "inc", "defs", "libs", "flags", "src_flags", "ldflags"):
        if k in kw: b[k] = kw.pop(k)
    return dict(name=name, src=src, repo=repo, build=b, bound=dict(quick=quick, thorough=thorough or quick), **kw)

LAT = ["common/lattice.cpp", "common/layer_tag_collection.cpp", "common/layer_tag_manager.cpp", "common/layer_tag_mask.cpp",
       "common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/string_frag.cpp", "common/string_helpers.cpp",
       "common/zvalue.cpp", "common/cutter.cpp", "common/logging.cpp", "common/psi_exception.cpp"]
LOG = ["log4cpp"]

prop("L01", "The lattice holds exactly the edges that were added, whatever is asked when",
     "After any history of lattice operations (adding edges, partitions, symbols, text, loose vertices, discarding) every query - "
     "edges out of or into a vertex under any tag mask, edges sorted by source or target, first edges, edge counts, tags, scores, partitions and covered text - "
     "answers exactly what the plain list of added (and merged) edges implies. "
     "The answers do not depend on which queries were made before or at what point they were first made, and a query made while another is being iterated does not disturb it.",
     ["histories", "inputs"], "all histories of lattice operations, with queries (which build indices lazily) begun at any step, over texts with one- and two-byte characters",
     "The unit tests build half a dozen fixed lattices and query each once, mostly after the last addition; lazily built indices, implicit edges and merging interact only in specific orders.",
     ["common/lattice.cpp", "common/lattice.hpp"],
     [("per-mask edge indices updated on addition and merging", "common/lattice.cpp Lattice::addEdge, addTagMaskIndex_"),
      ("implicit symbol edges", "common/lattice.cpp implicitOutEdges_ / visible / hidden bitsets"),
      ("merging edges of the same span, item and plane", "common/lattice.cpp vvcHash_")],
     [H("lattice_ops", ["lattice_ops.cpp"], LAT, "all operation histories of length <=3 over 27 operations, length 4 over 8; queries begun at every step; all ordered pairs of 120 masks",
        "all operation histories of length <=4 over 27 operations, length 5 over 8; queries begun at every step", libs=LOG)],
     "explicit-state exploration of operation histories on the real lattice against a list-of-edges model",
     "every history within the bound is executed on the real class and compared after every step with a plain list of edges",
     observe=["Lattice::outEdges/inEdges/edgesSortedBy*/countEdges/getEdge*"],
     rule="distinct = different canonical lattice contents reached")

prop("S01", "Text fragments behave exactly as the strings they stand for",
     "A text fragment - referring into a source text, owning its characters, a fragment of a fragment, or grown by appending - gives after any history of "
     "construction, copying, assignment and appending the same contents, length, characters, substrings and search results as the plain string it stands for.",
     ["histories", "inputs"], "all histories of fragment operations on two fragments, all positions and lengths",
     "The unit tests cover two appends and three searches on one long sentence; fragments that own their text, are empty or adjacent are hardly touched.",
     ["common/string_frag.cpp", "common/string_frag.hpp"],
     [("stored versus referring representation", "common/string_frag.hpp"), ("append merging adjacent fragments", "common/string_frag.cpp StringFrag::append")],
     [H("string_frag", ["string_frag.cpp"], ["common/string_frag.cpp", "common/annotation_item.cpp", "common/zvalue.cpp"],
        "all histories of length <=5 over 19 operations on two fragments", "all histories of length <=6 over 19 operations on two fragments")],
     "explicit-state exploration of operation histories on the real class against std::string",
     "all histories up to the bound are executed and every observation compared with std::string",
     observe=["StringFrag public interface", "AnnotationItem::getText"])

prop("L02", "Edge sequences, paths and corrections keep what they are made of",
     "An edge sequence always yields exactly the edges it was built of, in order, with their number, ends and text, also after the lattice has grown. "
     "A path follows matching edges from vertex to vertex until none is left, a path skipping blanks passes over blanks only where nothing matches, and parents, children and lemmas follow the partitions. "
     "After a correction (insertion, erasure, replacement) the original text and every successfully corrected text can be spelled along symbol edges.",
     ["histories", "inputs"], "all edge sequences over a lattice and later changes, all sub-lattices of a dozen edges for paths, all histories of corrections",
     "The tests build one sequence and one correction of each kind on a fixed word; compressed sequences, blanks as the last edge and repeated corrections are not reached.",
     ["common/lattice.cpp", "common/lattice.hpp"],
     [("compression of sequences of hidden symbol edges", "common/lattice.cpp EdgeSequence::Builder"), ("paths", "common/lattice.hpp getPathWithSkipping, common/lattice.cpp getPath"),
      ("corrections", "common/lattice.cpp correctionInsert/Erase/Replace")],
     [H("lattice_paths", ["lattice_paths.cpp"], LAT, "all sequences of <=4 edges in 5 lattices with 5 later changes, all 4096 sublattices for paths, all derivation chains of <=5 edges, all histories of <=2 corrections on 2 texts",
        "sequences of <=5 edges, derivation chains of <=6, histories of <=3 corrections", libs=LOG)],
     "exhaustive enumeration of sequences, sublattices and correction histories on the real lattice against reference models",
     "all cases within the bound are executed on the real class",
     observe=["EdgeSequence", "Lattice::getPath", "Lattice::getPathSkippingBlanks", "Lattice::correction*"])

prop("T01", "Layer tags form sets, and masks match exactly the sets they describe",
     "Collections of layer tags behave as sets of names - union, intersection, inclusion, equality, names, plane (`!') tags - in whatever order and way the names were first used, up to the capacity of 64 tags. "
     "A mask written as alternatives of conjunctions matches a collection exactly when some alternative is contained in it, however the mask was made and however often it was asked about. "
     "Whether a bare symbol matches a mask is the same for stored and implicit symbols.",
     ["inputs", "histories"], "all orders of first use of the names, all pairs of collections and masks of two alternatives over five names, all specification strings up to a length",
     "The tests check a handful of collections of two or three tags.",
     ["common/layer_tag_manager.cpp", "common/layer_tag_collection.cpp", "common/layer_tag_mask.cpp"],
     [("bit vectors indexed by a name map", "common/layer_tag_manager.cpp"), ("mask matching", "common/layer_tag_mask.cpp matches"), ("mask specification grammar", "common/layer_tag_manager.hpp LayerTagMaskSpecificationGrammar")],
     [H("layer_tags", ["layer_tags.cpp"], ["common/layer_tag_collection.cpp", "common/layer_tag_manager.cpp", "common/layer_tag_mask.cpp"],
        "all 120 orders of first use of 5 names x all pairs of subsets x all collections; 62 other tags present; all specifications of <=6 characters over {a b ! , ;}",
        "as quick, specifications of <=7 characters", mode="plain")],
     "exhaustive enumeration of tag histories and masks on the real classes against sets of names",
     "all cases within the bound are executed on the real classes",
     observe=["LayerTagManager", "matches()"])

prop("A01", "Annotation items are a category, a text and a map of attribute values",
     "After any history of setting values and copying, retargeting or merging items, each item reports exactly the attribute values last given to it (integers by value, the special values by name, all other strings verbatim), and copies are independent. "
     "Two items are equal exactly when their categories, texts and attribute values are, whatever order attributes were introduced in, and equal items have equal hashes.",
     ["histories", "inputs"], "all histories of operations on two items sharing a manager, all values over an alphabet of digits, signs, blanks and letters, all integers at powers of two",
     "The tests set two or three fixed values; equality depends on which attribute names the manager happened to meet first.",
     ["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/zvalue.hpp", "common/zvalue.cpp"],
     [("values in a vector indexed by attribute number", "common/annotation_item_manager.cpp setValue"), ("equality and hash", "common/annotation_item.cpp"), ("tagged integers and interned symbols", "common/zvalue.hpp")],
     [H("annotation_items", ["annotation_items.cpp"], ["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/zvalue.cpp", "common/string_frag.cpp"],
        "all histories of length <=3 over 45 operations on two items; all values of <=4 characters over 8; all int powers of two +-2; up to 3000 symbols, 128 attributes",
        "as quick, length 4 over 21 operations, values of <=5 characters")],
     "explicit-state exploration of operation histories on the real classes against a map model",
     "every history within the bound is executed and every observation compared with the model",
     observe=["AnnotationItemManager", "AnnotationItem::operator==, getHash"])

prop("Z01", "Syntactic trees keep their subtrees in order under any history of editing",
     "After any history of adding, inserting, detaching and replacing subtrees, every syntactic tree has exactly the expected subtrees in the expected order, with consistent parents, numbers and labels, and searches and attribute inheritance follow that order. "
     "The hash tables underneath hold exactly the values put into and not removed from them, whatever collisions, deletions and growth happened on the way.",
     ["histories"], "all histories of tree edits on four nodes, all histories of put and remove on hashes with colliding and non-colliding hash functions",
     "No unit test edits these trees at all; they are only built by whole-parser tests.",
     ["common/zvalue.hpp", "common/zvalue.cpp"],
     [("subtrees kept as numbered entries of a hash", "common/zvalue.cpp zsyntree"), ("open addressing with deleted marks", "common/zvalue.hpp zhash")],
     [H("syntax_trees", ["syntax_trees.cpp"], ["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/zvalue.cpp", "common/string_frag.cpp"],
        "all histories of <=3 edits and attribute operations and of 4 edits on 4 trees; all histories of 6 hash operations, repeated patterns up to 150 operations, 3 hash functions",
        "all histories of <=4 operations, of 5 edits; 8 hash operations")],
     "explicit-state exploration of operation histories on the real trees and hashes against a tree model",
     "every history within the bound is executed and every observation compared with the model",
     observe=["zsyntree", "zhash"])

prop("F01", "A lattice written in the PSI format and read back is the same lattice",
     "For every lattice whose whole text is covered by an edge, writing it in the PSI format and reading the result back yields the same text and the same edges: spans (loose vertices included), tags, categories, annotation texts, attribute values, scores and partitions with their tags, scores, sub-edges and roles. "
     "Writing what was read gives the same output again. Escaping and unescaping are inverse to each other and leave no separator in a field.",
     ["inputs"], "all texts up to a length over plain, blank, special and multi-byte characters with every subset of tokens; all pairs of edge templates; all partition lists; texts partly without symbols; every special character in every field",
     "The mat tests round-trip a dozen files without special characters, loose gaps or several partitions with different scores.",
     ["formats/psi/psi_writer/psi_lattice_writer.cpp", "formats/psi/psi_reader/psi_lattice_reader.cpp", "formats/psi/psi_reader/psi_lattice_reader.hpp", "common/utt_like_quoter.cpp", "common/psi_quoter.cpp"],
     [("writer", "formats/psi/psi_writer/psi_lattice_writer.cpp printEdge"), ("reader and its grammars", "formats/psi/psi_reader/psi_lattice_reader.cpp doRun"), ("quoting", "common/utt_like_quoter.cpp")],
     [H("psi_format", ["psi_format.cpp"], LAT + ["common/aligning_writer_worker.cpp", "common/quoter.cpp", "common/psi_quoter.cpp", "common/utt_like_quoter.cpp", "common/processor.cpp", "common/stream_lattice_reader.cpp", "formats/utt/utt_quoter.cpp",
        "formats/psi/psi_reader/psi_lattice_reader.cpp", "formats/psi/psi_writer/psi_lattice_writer.cpp"],
        "texts of <=3 characters over 9 with all subsets of tokens, 4 long texts with all spans, a quarter of the pairs of ~130 edge templates, partition lists of <=3 from 35, 5 texts with markup, 27 special characters in every field",
        "texts of <=4, all pairs of templates, all partition lists of <=3", inc=["formats/psi/psi_reader", "formats/psi/psi_writer", "formats/utt"], libs=LOG + ["boost_program_options", "boost_filesystem", "boost_system"])],
     "exhaustive enumeration of bounded lattices through the real writer and reader, compared with the lattice written",
     "every case within the bound is executed on the real writer and reader",
     observe=["PsiLatticeWriter", "PsiLatticeReader", "PsiQuoter"])

prop("K01", "Tokens tile the text, follow the rules in order and respect the length limits",
     "The tokens cut from a text edge cover exactly its text, in order, without overlapping, losing or splitting any character, and each is made of exactly the symbols it covers; text outside text edges gets no tokens. "
     "Each token is the non-empty match of the first matching rule (the last one in the rule file first), or a single character if none matches. "
     "No token exceeds the hard limit on its length, and one reaching the soft limit is cut at the next space.",
     ["inputs"], "all texts up to a length over one- to four-byte characters, blanks and punctuation, six small rule sets and the real Polish, English and German ones, all small limits, four arrangements of text edges",
     "The tests tokenize a few fixed sentences with the default limits, which are never reached.",
     ["common/cutter.hpp", "common/cutter.cpp", "common/lattice.cpp", "tools/tokenizers/tp/tp_token_cutter.hpp", "tools/tokenizers/tp/tp_tokenizer.cpp"],
     [("fragmenting by limits", "common/cutter.hpp fragmentSegment_"), ("first matching rule", "tools/tokenizers/tp/tp_token_cutter.hpp performCutOff"), ("cutting a lattice edge", "common/lattice.cpp runCutterOnEdge_, cutSequenceByTextLength_")],
     [H("text_cutting", ["text_cutting.cpp"], LAT + ["tools/tokenizers/tp/tp_tokenizer.cpp", "tools/tokenizers/tp/tp_token_cutter.cpp", "tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp", "common/regexp.cpp"],
        "texts of <=4 characters over 6 x 6 rule sets x 14 limits x 4 arrangements, of <=7 over 3, of <=3 over 10 x 3 real rule sets", "texts of <=5 over 6, <=9 over 3, <=4 over 10",
        inc=["tools/tokenizers/tp"], libs=LOG + ["pcrecpp", "pcre", "boost_program_options", "boost_filesystem", "boost_system"])],
     "exhaustive enumeration of texts, rule sets and limits through the real tokenizer against a reference cutter",
     "every case within the bound is executed on the real tokenizer",
     observe=["TpTokenizer::annotate"])

prop("K02", "A text is broken into sentences exactly where the SRX rules say",
     "A text edge is divided into segments which cover it exactly, and a segment ends at a position within it exactly when the first rule (in file order) applying at this position is a breaking one - "
     "a rule applies where a text ending here matches its `before' pattern and a text beginning here matches its `after' pattern. "
     "The rules in force are those of the first matching language map, or of all matching ones when cascading, and the length limits hold.",
     ["inputs"], "all rule files of one and two rules from a menu of fourteen and many of three, all texts up to a length, all small language maps, real rules for five languages on all short sequences of phrases",
     "The tests segment a few fixed texts with fixed rules; the interplay of cached rule applications with earlier breaks and exceptions needs particular texts.",
     ["tools/segmenters/srx/srx_segmenter.cpp", "tools/segmenters/srx/srx_rules.cpp", "tools/segmenters/srx/srx_rules.hpp", "common/cutter.hpp"],
     [("lazy application of rules", "tools/segmenters/srx/srx_segmenter.cpp SrxSentenceCutter updatePosition_, performCutOff"), ("choice of rules", "tools/segmenters/srx/srx_rules.cpp processLanguageMap_")],
     [H("srx_segments", ["srx_segments.cpp"], LAT + ["tools/segmenters/srx/srx_segmenter.cpp", "tools/segmenters/srx/srx_rules.cpp", "common/regexp.cpp"],
        "14 rules alone on texts of <=4 characters over 7, pairs on <=3, triples on texts of <=3 phrases over 4, 5 rule sets with limits on texts of <=4 phrases over 6, 1080 language maps, 5 real rule sets on texts of <=3 phrases over 18", "texts one character or phrase longer, with limits two phrases, real rules on <=5 phrases",
        inc=["tools/segmenters/srx"], libs=LOG + ["pcrecpp", "pcre", "boost_program_options", "boost_filesystem", "boost_system"])],
     "exhaustive enumeration of rule files and texts through the real segmenter against the definition of SRX rules",
     "every case within the bound is executed on the real segmenter",
     observe=["SrxSegmenter::annotate"])

prop("K04", "Tokenizer rule files mean what their directives say",
     "Loading a tokenizer rule file yields exactly the rules outside false branches of (nested) ifdef/ifndef/else/endif, in the order of the file and its included files, with macros in force replaced (longest name first, recursively), "
     "comments and insignificant blanks removed and escapes resolved. "
     "A malformed file - unbalanced conditionals, definition loops, missing or incomplete rules, unknown directives or includes - is rejected with the tokenizer's exception, never accepted and never otherwise fatal.",
     ["inputs"], "all sequences of directives up to a length, within the main file and an included one",
     "The tests load eight fixed files, with one conditional and no nested ones.",
     ["tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp", "common/escaping.cpp"],
     [("conditionals", "tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp readIf, readElse, readEndIf"), ("macros", "tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp applyDefinitions"), ("includes", "tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp subLoad")],
     [H("rule_files", ["rule_files.cpp"], ["tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp", "common/regexp.cpp", "common/escaping.cpp", "common/psi_exception.cpp", "common/logging.cpp"],
        "all sequences of <=3 of 20 directives, <=6 of 7 with conditionals, <=5 of 7 with includes or macros, 6 included files, 224 malformed files", "sequences of <=4 of 20, <=8 and <=6 and <=7 of 7",
        inc=["tools/tokenizers/tp"], libs=LOG + ["pcrecpp", "pcre"])],
     "exhaustive enumeration of sequences of directives through the real loader against a reference preprocessor",
     "every sequence within the bound is loaded by the real class",
     observe=["TPBasicTokenizerRuleSet"])

SRV = ["server/server/request_handler.cpp", "server/server/reply.cpp", "server/server/mime_types.cpp", "server/server/request_parser.cpp", "server/server/connection.cpp", "server/server/server.cpp",
       "server/psi_server.cpp", "server/psi_request_handler.cpp", "server/session.cpp", "server/session_manager.cpp", "server/mpfd-parser/Parser.cpp", "server/mpfd-parser/Field.cpp", "server/mpfd-parser/Exception.cpp",
       "common/guid_generator.cpp", "common/logging.cpp", "common/psi_exception.cpp"]
SRVINC = ["server", "server/server", "server/mpfd-parser"]
SRVLIBS = LOG + ["boost_thread", "boost_chrono", "boost_filesystem", "boost_system", "pthread"]

prop("H01", "The request read is the request sent, however it is divided into packets",
     "For every sequence of bytes and every division of it into packets, the server's request parser gives the same verdict and the same request: the method, the URI, the version, the headers in order and, for a POST, "
     "as many bytes of body as Content-Length says, whatever these bytes and the content type are, and whatever the case of header names is. "
     "A malformed request is rejected at its first wrong byte and a complete one is recognized as soon as its last byte arrives, so that a client is never left waiting.",
     ["inputs", "schedules"], "all sequences of tokens up to a length after several prefixes, read whole and byte by byte; all requests of a grammar in all divisions into three packets",
     "The server tests drive a running server with a browser, which sends a request in one packet; none of them is run in the test suite.",
     ["server/server/request_parser.cpp", "server/server/request_parser.hpp", "server/server/request.hpp"],
     [("parser automaton", "server/server/request_parser.cpp request_parser::consume"), ("length of the body", "server/server/request_parser.cpp set_post_data_length")],
     [H("http_requests", ["http_requests.cpp"], ["server/server/request_parser.cpp", "common/logging.cpp", "common/psi_exception.cpp"], "all sequences of <=4 of 23 tokens after 5 prefixes, ~1100 requests in all divisions into three packets", "sequences of <=5 tokens",
        inc=SRVINC, libs=LOG)],
     "exhaustive enumeration of byte sequences and their divisions through the real parser against a reference grammar",
     "every sequence and division within the bound is given to the real parser",
     observe=["request_parser::parse"])

prop("H02", "A static file is served exactly, and nothing outside the website root",
     "A request whose percent-decoded path names a file under the website root is answered with exactly the bytes of this file, and any other one with 400 or 404 and without any contents of a file. "
     "Whatever the encoding of the path, no file outside the root is ever read. Every answer consists of the status line, the headers, with the true Content-Length, and the content.",
     ["inputs"], "all paths made of up to a number of tokens, dots, slashes, percent escapes (right and wrong) and names included",
     "The server tests ask for a dozen existing pages and are not run in the test suite.",
     ["server/server/request_handler.cpp", "server/server/reply.cpp"],
     [("decoding and containment", "server/server/request_handler.cpp handle_request, url_decode"), ("answer", "server/server/reply.cpp to_buffers")],
     [H("static_files", ["static_files.cpp"], SRV, "all paths of <=3 of 25 tokens, <=6 of 9, all pairs of bytes after a percent sign", "paths of <=4 of 25 tokens, <=7 of 9",
        inc=SRVINC, libs=SRVLIBS)],
     "exhaustive enumeration of request paths through the real handler over a scratch website against a model of the file tree",
     "every path within the bound is requested from the real handler",
     observe=["request_handler::handle_request", "reply::to_buffers"])

prop("H03", "The values of a form reach the application exactly as they were sent",
     "Every form - sent in a GET query, in a POST body or as multipart/form-data, in one piece or many - gives the application exactly the sent names, values, file names and file contents, whatever characters they contain, and nothing else. "
     "A malformed form never hangs or kills the server.",
     ["inputs", "schedules"], "all urlencoded forms of up to a number of tokens; all multipart forms of up to two fields with contents of up to a number of tokens (line ends, dashes, parts of the boundary), in all divisions into pieces",
     "The server tests submit two forms from a browser and are not run in the test suite.",
     ["server/psi_server.cpp", "server/mpfd-parser/Parser.cpp", "server/mpfd-parser/Field.cpp"],
     [("urlencoded forms", "server/psi_server.cpp parseNamesAndValues, urlDecode"), ("multipart forms", "server/mpfd-parser/Parser.cpp _ProcessData"), ("contents of fields", "server/mpfd-parser/Field.cpp AcceptSomeData")],
     [H("server_forms", ["server_forms.cpp"], SRV, "urlencoded forms of <=4 of 17 tokens, <=7 of 5; multipart contents of <=3 of 12 tokens, 16 styles of forms of <=2 fields, in two pieces and byte by byte", "forms of <=5 of 17 tokens, <=9 of 5; contents of <=4 tokens; three pieces",
        inc=SRVINC, libs=SRVLIBS)],
     "exhaustive enumeration of forms and their divisions through the real request handler and parsers against a reference decoder",
     "every form within the bound is submitted to the real handler",
     observe=["PsiServer::checkForAction", "MPFD::Parser"])

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "stub")
VH = os.path.dirname(STUB)
SESS = SRV + ["server/site/json_site.cpp"]
COARSE = {f: ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/"] for f in SESS if f.startswith("server/")}
FINE = {f: ["-finstrument-functions"] for f in SESS if "server" in f and not f.startswith("server/server/server") and not f.startswith("server/server/connection")}
prop("H04", "A client's data stay in its own session, also when requests are simultaneous",
     "After any history of requests of several clients, with any cookies, every answer shows exactly the values the same client sent in its own session; a client with no (valid) session cookie, and only such, gets a new session with a unique identifier. "
     "No cookie header kills the server. The same holds when requests are handled at the same time by several threads, in every interleaving, also for the reply of the JSON API.",
     ["histories", "schedules"], "all histories of up to a number of requests of two clients, odd cookie headers included; all interleavings of two requests with up to two preemptions at calls within the server, one preemption at calls of library code",
     "The server tests use one browser and are not run in the test suite; no test handles two requests at the same time.",
     ["server/psi_request_handler.cpp", "server/session_manager.cpp", "server/session.cpp", "server/psi_server.cpp", "server/site/json_site.cpp", "common/guid_generator.cpp"],
     [("finding the session of a request", "server/session_manager.cpp SessionManager::SessionId"), ("current session", "server/psi_request_handler.cpp handle_request, server/session_manager.cpp currentSession"), ("reply of the JSON API", "server/site/json_site.cpp actionJson, jsonOutput")],
     [H("sessions", ["sessions.cpp"], SESS, "all histories of <=5 of 6 requests, <=3 and an odd cookie (9); 5 scenarios of two simultaneous requests, all schedules of <=2 preemptions", "histories of <=6; three preemptions",
        mode="plain", inc=[STUB] + SRVINC + ["server/site"], libs=SRVLIBS, src_flags=COARSE),
      H("sessions_fine", ["sessions.cpp"], SESS, "3 scenarios, all schedules of one preemption at any call, also in inlined library code", "5 scenarios",
        mode="plain", inc=[STUB] + SRVINC + ["server/site"], libs=SRVLIBS, src_flags=FINE, defs=["SCHED_FINE"])],
     "exhaustive enumeration of request histories, and stateless exploration of thread schedules of the real server code under a controlled scheduler with bounded preemptions",
     "every history and schedule within the bounds is executed on the real request handler and session manager",
     observe=["PsiRequestHandler::handle_request", "SessionManager", "JsonSite"])

STUBS = ["-include", STUB + "/file_recognizer.hpp", "-include", STUB + "/encoding_converter.hpp"]
prop("H05", "The JSON API answers with valid JSON carrying exactly what was sent",
     "Whatever bytes the pipe and the text of a request consist of, the reply of the JSON API is one valid JSON object, whose pipe and input are those sent, whose output is exactly what the pipeline wrote (the JSON itself for a JSON writer) "
     "and whose error is null - or, if the pipeline failed, the output is null and the error carries the message. The reply has its own content type and length, whatever the query consists of.",
     ["inputs"], "all pipes, texts and error messages made of up to a number of tokens: quotes, backslashes, slashes, all kinds of control characters, multi-byte characters, directives of pages",
     "The server tests call the API once with a plain word and are not run in the test suite.",
     ["server/site/json_site.cpp", "server/psi_request_handler.cpp"],
     [("escaping", "server/site/json_site.cpp escape_, addKeyValuePairToOutputAsString_"), ("content type", "server/psi_request_handler.cpp getContentType, getFileName")],
     [H("json_api", ["web_pages.cpp"], SESS + ["server/site/pipe_site.cpp", "common/file_storage.cpp", "common/md5.cpp"], "pipes and texts of <=3 of 26 tokens, errors of <=2, queries of <=5 of 10 tokens", "<=4 tokens, queries of <=6",
        mode="fast", inc=[STUB, VH] + SRVINC + ["server/site"], libs=SRVLIBS, flags=STUBS)],
     "exhaustive enumeration of API requests through the real handler against a strict JSON reader",
     "every request within the bound is given to the real request handler; the pipeline itself is replaced by one which reverses its input",
     observe=["JsonSite::actionJson", "PsiRequestHandler::handle_request"])

prop("H06", "A page shows exactly the pipe, text and output; other files are sent unchanged",
     "The page of the pipeline shows exactly the pipe and the text sent and the output written, whatever characters they contain (they are escaped, cannot break the page and are not taken for directives), its script is well formed, and the stored output is downloaded byte for byte. "
     "In other pages every directive, and nothing else, is replaced; files which are not pages are sent unchanged, each reply having the content type of its file and its true length.",
     ["inputs"], "all pipes, texts and error messages made of up to a number of tokens (mark-up, entities, directives, quotes, line ends), sent by GET, POST and as a file; all paths made of up to a number of tokens over a website with files of 18 kinds",
     "The server tests look at a dozen fixed pages and are not run in the test suite.",
     ["server/site/pipe_site.cpp", "server/psi_server.cpp", "server/psi_request_handler.cpp", "common/file_storage.cpp"],
     [("directives", "server/psi_server.cpp include"), ("escaping", "server/site/pipe_site.cpp encodeHTML_, hiddenOptions"), ("content type", "server/psi_request_handler.cpp getContentType"), ("stored output", "common/file_storage.cpp storeFile")],
     [H("web_pages", ["web_pages.cpp"], SESS + ["server/site/pipe_site.cpp", "common/file_storage.cpp", "common/md5.cpp"], "pipes and texts of <=3 of 28 tokens, paths of <=5 of 13 tokens", "both at once, paths of <=6",
        mode="fast", inc=[STUB, VH] + SRVINC + ["server/site"], libs=SRVLIBS, flags=STUBS, defs=["PAGES"])],
     "exhaustive enumeration of requests through the real handler and site against a reference reader of the page",
     "every request within the bound is given to the real request handler; the pipeline itself is replaced by one which reverses its input",
     observe=["PipeSite", "PsiServer::include", "PsiRequestHandler::handle_request"])

TAGGER = ["common/annotator.cpp", "common/annotator_factory.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp", "common/language_dependent_annotator_factory.cpp", "common/lang_specific_processor_file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/regexp.cpp"]
PO = ["boost_program_options", "boost_filesystem", "boost_system"]
WR = LAT + ["common/aligning_writer_worker.cpp", "common/quoter.cpp", "common/psi_quoter.cpp", "common/utt_like_quoter.cpp", "common/processor.cpp", "common/processor_factory.cpp", "formats/utt/utt_quoter.cpp"]
prop("F06", "The simple and JSON writers print the annotations asked for, in text order",
     "For every lattice, the simple and the JSON writer print each (not discarded) annotation carrying the tags asked for - or, where there is none, the first fall-back tags found - exactly once, in the order of the text, "
     "alternatives together, blanks, alternatives and crossing annotations left out only when so asked. With tags of larger units given, annotations are separated (or nested) exactly according to the unit they begin in and those in no unit are left out. "
     "The JSON is always valid and its strings are exactly the texts, categories and attribute values of the annotations.",
     ["inputs"], "all sublattices of eighteen edges (tokens, units, fall-back edges) with all combinations of options, all texts of annotations of up to a number of characters, all combinations of separators",
     "The tests write three fixed lattices, whose units begin at the first character and leave no gaps.",
     ["common/lattice_iter_writer.cpp", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp", "formats/json-simple/json_lattice_writer_output.cpp"],
     [("walk over the lattice", "common/lattice_iter_writer.cpp LatticeIterWriter::run"), ("separators", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp"), ("nesting and escaping", "formats/json-simple/json_lattice_writer_output.cpp")],
     [H("lattice_writers", ["lattice_writers.cpp"], WR + ["common/lattice_iter_writer.cpp", "common/lattice_writer_output_iterator.cpp", "formats/simple/simple_lattice_writer.cpp", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp",
        "formats/json-simple/json_lattice_writer.cpp", "formats/json-simple/json_lattice_writer_output.cpp", "formats/json-simple/json_lattice_writer_output_iterator.cpp"],
        "most of the sublattices of 18 edges x up to 160 combinations of options, texts of <=2 of 19 characters", "all sublattices, texts of <=3 characters",
        inc=["formats/simple", "formats/json-simple", "formats/utt"], libs=LOG + PO)],
     "exhaustive enumeration of bounded lattices and options through the real writers against a reference of what is to be printed",
     "every lattice and combination of options within the bound is given to the real writers",
     observe=["SimpleLatticeWriter", "JSONLatticeWriter"])

PIPE = LAT + ["framework/auto_completer.cpp", "framework/factories_keeper.cpp", "framework/aliaser.cpp", "framework/split_pipeline.cpp", "framework/shallow_aliaser.cpp",
        "common/annotator_factory.cpp", "common/annotator_promise.cpp", "common/non_annotator_promise.cpp", "common/processor_promise.cpp", "common/processor_factory.cpp", "common/processor.cpp",
        "common/annotator.cpp", "common/lattice_worker.cpp", "common/language_dependent_annotator_factory.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp",
        "common/configurator.cpp", "common/stream_helpers.cpp"]
prop("P01", "A pipeline runs the processors written in it, with the options written",
     "A pipeline, given as a string, a list of arguments or a command line, runs exactly the processors it names, in that order, a reader and a writer being supplied where missing, the language guesser being told the languages which may be needed, and aliases standing for what they expand to. "
     "Every option reaches its processor exactly as written, whatever characters it contains; a pipeline that cannot be run is refused. A pipeline may be run again with the same effect; line by line, every line is processed on its own, in order.",
     ["inputs"], "all option values up to a length over blanks, quotes, backslashes, separators and names of aliases, written in four ways; all pipelines of up to a number of elements; all texts up to a length",
     "The tests run fixed pipelines, in which hardly an option contains anything but letters.",
     ["framework/pipe_runner.cpp", "framework/shallow_aliaser.cpp", "framework/split_pipeline.cpp"],
     [("expansion of aliases", "framework/shallow_aliaser.cpp ShallowAliaser::replace"), ("splitting", "framework/split_pipeline.cpp"), ("options", "framework/pipe_runner.cpp tryOptions_"), ("languages", "framework/pipe_runner.cpp getLangCodes_")],
     [H("pipelines", ["pipelines.cpp"], PIPE + ["framework/pipe_runner.cpp"], "option values of <=4 of 9 tokens, pipelines of <=4 of 17 elements, texts of <=6 of 5 characters", "option values of <=5, pipelines of <=5, texts of <=7",
        mode="fast", inc=[VH + "/noperl", "framework", "tests"], libs=LOG + PO)],
     "exhaustive enumeration of pipelines through the real pipe runner with recording processors",
     "every pipeline within the bound is run by the real PipeRunner; its processors only record that they were run",
     observe=["PipeRunner"])
prop("P02", "A pipeline is completed with the best processors providing what it needs",
     "When a processor requires annotations no earlier one provides, one that provides them is run before it, itself completed in the same way, in the same language; a processor which depends on the language is run once for every language needed. "
     "The processors named by the user are all run, in their order; of all ways to complete the pipeline, that of the best total quality, and among those the shortest time, is taken whose processors can all be created, and if there is none the pipeline is refused. "
     "An alias stands for all the processors reachable through aliases, even if their definitions form loops.",
     ["inputs"], "all worlds of up to three candidate processors (required and provided annotations, languages, quality, time, whether they can be created) and one or two processors named by the user; all graphs of aliases over four names",
     "The tests complete a few fixed pipelines with the processors which happen to be installed.",
     ["framework/auto_completer.cpp", "framework/aliaser.cpp", "common/annotator_promise.cpp"],
     [("search for completions", "framework/auto_completer.cpp complete_"), ("languages", "framework/auto_completer.cpp filtreByLanguage_, common/annotator_promise.cpp doCloneWithLanguageSet"), ("choice", "framework/auto_completer.cpp trySolution_, checkSolution_"), ("aliases", "framework/aliaser.cpp")],
     [H("auto_completion", ["auto_completion.cpp"], [x for x in PIPE if x.split("/")[-1] not in ("shallow_aliaser.cpp", "split_pipeline.cpp", "factories_keeper.cpp", "edit_distance.cpp")],
        "worlds of <=2 candidates of all kinds, most of 3; 4 candidates with scores", "all worlds of <=3 candidates of 5 kinds of languages", mode="fast", inc=["framework"], libs=LOG + PO)],
     "explicit-state search of completions by a reference over all bounded worlds, compared with the real AutoCompleter",
     "every world within the bound is given to the real AutoCompleter",
     assumptions=["processors do not require each other in a circle (worlds where they do are not run)"],
     observe=["AutoCompleter::complete", "Aliaser"])
prop("F03", "Reading plain text and UTT puts exactly what was read in the lattice",
     "Reading plain text puts exactly that text into the lattice, after whatever is already there, every line (or the whole text) annotated as one fragment; text which is not UTF-8 is refused. "
     "Reading a well-formed UTT document puts in the text its segments spell, every segment, with its form and attributes, over the text it spells - whether positions and lengths are given or follow from what precedes - and every sentence over its text, made of segments following one another. "
     "Any other input to the UTT reader is read or refused, never mishandled.",
     ["inputs"], "all texts up to a length over one- to four-byte characters, line ends and invalid bytes; all UTT documents of up to a number of segments, and all inputs made of up to a number of tokens",
     "The tests read one fixed document in each format.",
     ["formats/txt/txt_lattice_reader.cpp", "formats/utt/utt_lattice_reader.cpp", "formats/utt/utt_lattice_reader.hpp", "common/reader_worker.hpp"],
     [("fragments", "common/reader_worker.hpp appendParagraphToLattice_"), ("positions in characters and bytes", "formats/utt/utt_lattice_reader.hpp PosConverter"), ("sentences", "formats/utt/utt_lattice_reader.cpp")],
     [H("text_readers", ["text_readers.cpp"], LAT + ["formats/txt/txt_lattice_reader.cpp", "formats/utt/utt_lattice_reader.cpp", "formats/utt/utt_quoter.cpp", "common/quoter.cpp", "common/utt_like_quoter.cpp",
        "common/stream_lattice_reader.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp"],
        "texts of <=4 of 10 characters, documents of <=3 of 67 kinds of lines, <=5 of 19 and <=8 of 5, any input of <=5 of 14 tokens", "texts of <=5, documents of <=6 of 19 and <=9 of 5, any input of <=6",
        inc=["formats/txt", "formats/utt"], libs=LOG + PO)],
     "exhaustive enumeration of texts and documents through the real readers against a reference",
     "every text and document within the bound is read by the real readers",
     observe=["TxtLatticeReader", "UTTLatticeReader"])

LEX = ["tools/datastructures/lexica/key_value_store.cpp", "tools/datastructures/lexica/perfect_hash_index.cpp", "tools/datastructures/lexica/murmur_hash3.cpp", "tools/datastructures/lexica/lexicon_base.cpp",
       "common/utt_like_quoter.cpp", "common/psi_quoter.cpp", "common/logging.cpp", "common/psi_exception.cpp"]
prop("D01", "A lexicon gives for every key exactly what was put in under it",
     "A lexicon read from text gives for every key the records of all its lines, in order, and nothing for any other key; comments and empty lines do not count, fields are unescaped and a malformed line is an error. "
     "The stores beneath it - vectors of rising positions, vectors of strings, key-value stores - give back exactly what was put in, for every history of additions. "
     "All of this stays the same after saving and loading, and a loaded or swapped store can grow further.",
     ["inputs", "histories"], "all sequences of additions, all sets and orders of keys, all files of lines up to a length, before and after saving and loading",
     "The tests store a dozen values and one lexicon; values on the edge of a storage unit, single or no keys and keys occurring again are not reached.",
     ["tools/datastructures/lexica/monotonic_vector.hpp", "tools/datastructures/lexica/string_vector.hpp", "tools/datastructures/lexica/key_value_store.cpp", "tools/datastructures/lexica/perfect_hash_index.hpp", "tools/datastructures/lexica/lexicon_base.cpp"],
     [("differences with overflows", "tools/datastructures/lexica/monotonic_vector.hpp at, push_back"), ("translation of hashes", "tools/datastructures/lexica/key_value_store.cpp Builder::build"), ("gathering of records", "tools/datastructures/lexica/lexicon_base.cpp readPlainText")],
     [H("lexicon_stores", ["lexicon_stores.cpp"], LEX,
        "all sequences of <=6 of 7 differences with 3 step sizes, sequences of <=4 of 8 strings, all orders of <=3 of 10 keys and 9 sizes up to 20000, files of <=3 of 14 lines", "one more of each",
        inc=["tools/datastructures/lexica"], libs=LOG + ["cmph", "boost_filesystem", "boost_system"], flags=["-U_GLIBCXX_ASSERTIONS"])],
     "exhaustive enumeration of histories of additions and of lexicon files on the real stores against plain vectors and maps",
     "every history and file within the bound is executed on the real classes",
     observe=["LexiconBase", "KeyValueStore", "StringVector", "MonotonicVector"])

prop("D02", "Operations on automata accept exactly the languages they should",
     "Union, concatenation, repetition, option, intersection and reversal of automata, and automata of regular expressions, accept exactly the words their definitions imply; removing empty transitions, pruning, determinizing, minimizing, binarizing, copying, saving and loading keep the language, "
     "determinized automata are deterministic and minimized ones minimal. "
     "An automaton built of sorted words is the minimal one accepting exactly them, and a store of keys with values built on it returns exactly the values of a key.",
     ["inputs", "histories"], "all sequences of operations up to a length over seven automata, judged on all words of up to five letters; all regular expressions up to a length; all sets of words from a pool",
     "The tests check two automata on a few words each; the empty word and automata accepting nothing are not reached.",
     ["tools/datastructures/psi_query/fsa_algorithms.hpp", "tools/datastructures/psi_query/fsa_ndfsa_impl.hpp", "tools/datastructures/psi_query/fsa_bindfsa.hpp", "tools/datastructures/psi_query/fsa_multi_store.hpp", "tools/datastructures/psi_query/fsa_query_grammers.hpp"],
     [("traversal of derived automata", "tools/datastructures/psi_query/fsa_algorithms.hpp traverse, Intersector, EpsRemover, Determinizer"), ("incremental minimization", "tools/datastructures/psi_query/fsa_algorithms.hpp minimize_incremental, replace_or_register"), ("binary form", "tools/datastructures/psi_query/fsa_bindfsa.hpp addArc, find")],
     [H("automata", ["automata.cpp"], ["tools/datastructures/psi_query/fsa_multi_store.cpp", "common/logging.cpp", "common/psi_exception.cpp"],
        "programs of 1 of 7 automata and <=4 of 9 operations, 2 and <=2 (of 4 automata), 3 and 1 (of 5), wildcards; words of <=5 letters; strings of <=4 characters and regular expressions of <=6; sets of <=4 of 16 words; <=3 of 25 entries", "one more operation, character, entry; all sets of 16 words",
        inc=["tools/datastructures/psi_query"], libs=LOG + ["boost_iostreams", "z"])],
     "exhaustive enumeration of programs of operations on real automata against finite languages",
     "every program within the bound is executed on the real classes and its automaton compared on all words of up to five letters",
     observe=["fsa algorithms", "NDFSA", "DFSA", "BinDFSA", "FSAMultiStore", "CharGrammar"])

prop("D03", "The lemmatizer finds exactly the analyses its dictionary lists",
     "For every form the dictionary lemmatizer gives exactly the lemmas, lexemes and forms with the features listed for it in the dictionary, and nothing for any other string, whether the dictionary is read from text or from the binary file saved of it. "
     "The level limits the analyses to lemmas, lexemes or forms, and lexeme identifiers are kept only on demand. "
     "Every lemma is decoded from its difference to the form exactly as it was, for forms of up to 188 bytes.",
     ["inputs"], "all pairs of forms and lemmas up to a length, lengths around the limits of a byte; all dictionaries of up to a number of lines, at all levels, from text and binary files",
     "The tests look up one form in one prepared dictionary.",
     ["tools/lemmatizers/lamerlemma/lamerlemma.cpp", "tools/lemmatizers/lamerlemma/utility_functions.cpp", "tools/lemmatizers/lamerlemma/dictionary.cpp", "tools/datastructures/psi_query/fsa_multi_store.hpp"],
     [("difference of lemma and form", "tools/lemmatizers/lamerlemma/utility_functions.cpp KLEndEncode, KLEndDecode"), ("analyses of a record", "tools/lemmatizers/lamerlemma/utility_functions.cpp parseResult"), ("levels", "tools/lemmatizers/lamerlemma/lamerlemma.cpp lemmatize")],
     [H("lemmatizer_dictionary", ["lemmatizer_dictionary.cpp"], LAT + ["tools/lemmatizers/lamerlemma/lamerlemma.cpp", "tools/lemmatizers/lamerlemma/dictionary.cpp", "tools/lemmatizers/lamerlemma/utility_functions.cpp", "tools/datastructures/psi_query/fsa_multi_store.cpp",
        "common/lemmatizer_output_iterator.cpp", "common/language_dependent_annotator_factory.cpp", "common/annotator_factory.cpp", "common/annotator.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp",
        "common/lang_specific_processor_file_fetcher.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp"],
        "forms of <=5 and lemmas of <=4 of 3 characters, 14 lengths of each part; dictionaries of <=2 of 18 lines and sets of 3, 17 strings looked up at 4 levels", "forms of <=6, lemmas of <=5; dictionaries of <=3 lines",
        inc=["tools/lemmatizers/lamerlemma", "tools/datastructures/psi_query"], libs=LOG + PO + ["boost_iostreams", "z"])],
     "exhaustive enumeration of dictionaries, forms and levels through the real lemmatizer against the listed analyses",
     "every dictionary within the bound is read, saved and loaded by the real lemmatizer and every string of the list looked up",
     observe=["LamerLemma::lemmatize", "KLEndEncode", "KLEndDecode"])

prop("D04", "The mapper and the bilingual lexicon add exactly what lexicon and options imply",
     "For every edge with all the input tags the mapper looks up the key made of the text, category and sorted attributes it was told to consider and adds one edge for every record, over the same span, built from that edge, with the output tags and with text, category and attributes cloned, set or taken from the record as the options say. "
     "Unknown keys give an edge only as the options for unknown keys say, and contradicting options are refused. "
     "The bilingual lexicon adds for every lexeme of its language exactly its translations, tagged with the target language, and all stays the same with a saved lexicon.",
     ["inputs"], "all combinations of the mapper's options over three lexicons and fifteen edges; all bilingual lexicons of up to a number of lines",
     "The tests of the mapper need a lexicon that is not there; no unit test touches it.",
     ["tools/lexica/mapper/mapper.cpp", "tools/lexica/bilexicon/bilexicon.cpp", "common/one_edge_at_a_time_annotator.hpp"],
     [("key of an edge", "tools/lexica/mapper/mapper.cpp processEdge"), ("building of an edge", "tools/lexica/mapper/mapper.cpp addEntry_, addEntryUnknown_"), ("translation", "tools/lexica/bilexicon/bilexicon.cpp parseRecord_")],
     [H("mapping_lexica", ["mapping_lexica.cpp"], LAT + ["tools/lexica/mapper/mapper.cpp", "tools/lexica/bilexicon/bilexicon.cpp"] + [x for x in LEX if x not in LAT] + ["common/quoter.cpp",
        "common/language_dependent_annotator_factory.cpp", "common/bi_language_dependent_annotator_factory.cpp", "common/annotator_factory.cpp", "common/annotator.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp",
        "common/lang_specific_processor_file_fetcher.cpp", "common/bi_lang_specific_processor_file_fetcher.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp"],
        "all 10206 combinations of options and contradictions of two, a third of them over 3 lexicons, 4 input tags and saved lexicons; bilingual lexicons of <=4 of 8 lines", "all combinations over all of these; <=5 lines",
        inc=["tools/lexica/mapper", "tools/lexica/bilexicon", "tools/datastructures/lexica"], libs=LOG + PO + ["cmph"], flags=["-U_GLIBCXX_ASSERTIONS"])],
     "exhaustive enumeration of option combinations and lexicons through the real annotators against a reference",
     "every combination within the bound is executed by the real processor on a real lattice",
     observe=["Mapper", "BiLexicon", "OneEdgeAtATimeAnnotator"])

CONV = ["common/language_dependent_annotator_factory.cpp", "common/annotator_factory.cpp", "common/annotator.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp",
        "common/lang_specific_processor_file_fetcher.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp"]
prop("X01", "Selector, antiselector and joiner add exactly what their options imply",
     "At every place where there is a fall-back edge the selector gives the output tags to each sequence of conditional edges all of whose conditions are met by the tested edges of the same span and, only where there is none, to the fall-back edge; the antiselector gives them to the edges of the base tag for which there is no edge to be counted. "
     "The joiner adds, for every pair of a left and a right edge of the same parent, one edge of the text, category and attributes the options say, and for a left edge without a right one itself, unless told otherwise. "
     "Nothing else is changed, blanks are left out unless asked for, and no lattice makes them fail.",
     ["inputs"], "all sublattices of fourteen edges added in two orders, with all combinations of options",
     "No unit test touches them; the pipeline tests run each on one sentence.",
     ["tools/converters/selector/selector.cpp", "tools/converters/antiselector/antiselector.cpp", "tools/converters/joiner/joiner.cpp"],
     [("conditions", "tools/converters/selector/selector.cpp isConditionSatisfied_"), ("sequences and fall-back", "tools/converters/selector/selector.cpp doRun"), ("joining", "tools/converters/joiner/joiner.cpp doRun")],
     [H("converters", ["converters.cpp"], LAT + ["tools/converters/%s/%s.cpp" % (x, x) for x in ("selector", "antiselector", "joiner")] + CONV,
        "a part of the 16384 sublattices of 14 edges x 24 options of the selector, 18 of the antiselector; of 16384 x 288 of the joiner", "all of them",
        inc=["tools/converters/" + x for x in ("selector", "antiselector", "joiner")], libs=LOG + PO)],
     "exhaustive enumeration of bounded lattices and options through the real annotators against a model of the lattice",
     "every lattice and combination of options within the bound is given to the real annotator",
     observe=["Selector", "Antiselector", "Joiner"])

prop("X02", "The tagset converter adds exactly the conversions its rule file implies",
     "For every annotation of the source tagset the converter adds, over the same span and with the preserved tags, one annotation for every candidate the rule file leaves: category, attributes and values are renamed as listed, and every rule, in order, is applied once to every candidate that meets its conditions. "
     "A command sets its attribute or the category to a value, to the value of another attribute, to anything or to nothing; alternatives multiply the candidates, each of which gets the rest of the commands; a skipping rule drops the candidate. "
     "Conversions are built of the conversions of the parts, where a part has a single one, nothing else is changed, blank lines and comments in the rule file make no difference, and the conversion always ends.",
     ["inputs"], "all rule files of up to three rules of twenty with five headers and 32 layouts, sublattices of ten edges",
     "The tests apply a single rule to a single item, and one header to three edges.",
     ["tools/converters/unumsunt/unumsunt.cpp", "tools/converters/unumsunt/unumsunt_rule.cpp"],
     [("rule file", "tools/converters/unumsunt/unumsunt.cpp Unumsunt::Unumsunt"), ("conversion", "tools/converters/unumsunt/unumsunt.cpp convertTags"), ("rules", "tools/converters/unumsunt/unumsunt_rule.cpp apply")],
     [H("tagset_conversion", ["tagset_conversion.cpp"], LAT + ["tools/converters/unumsunt/unumsunt.cpp", "tools/converters/unumsunt/unumsunt_rule.cpp"] + CONV,
        "1023 sublattices of 10 edges with 5 headers; 5 headers x 32 layouts x 20 pairs of rules; single rules on a quarter of the sublattices; pairs of 20 rules on 3 lattices, half of the triples on one", "all of these, triples with all headers",
        inc=["tools/converters/unumsunt"], libs=LOG + PO)],
     "exhaustive enumeration of bounded rule files and lattices through the real converter against a model of the rules",
     "every rule file within the bound is read by the real converter and applied to the lattices",
     observe=["Unumsunt", "UnumsuntRule"])

prop("N01", "Normalizers, spell checker and detokenizer add exactly what the engines give",
     "For every token of its language the table-driven and the first rewriting normalizer add the one variant the table or cascade gives (a listed exception itself), and the conditional normalizer one variant for every rule that changes the token, spread over as many tokens and blanks as it has words, each with its part of the condition. "
     "The spell checker adds every suggestion for every token the engine rejects, and for every two neighbouring rejected tokens taken together, blank included; the detokenizer joins tokens by their position with blanks where punctuation wants them. "
     "Each token is given to the engine as it was found, the added variants are never themselves normalized or checked, options and rule files are read as documented, and nothing else changes.",
     ["inputs"], "sublattices of twelve edges with all options and engines that rewrite, split, grow and cycle; all sequences of up to six kinds of tokens; all sequences and orders of up to four tokens to be joined",
     "The tests only call the engines, if these are installed, on single words.",
     ["tools/normalizers/simplenorm/simplenorm_normalizer.cpp", "tools/normalizers/iayko/iayko.cpp", "tools/normalizers/niema/niema.cpp", "tools/spellcheckers/aspell/psi_aspell.cpp", "tools/tokenizers/detok/detok.cpp"],
     [("variants of tokens", "tools/normalizers/iayko/iayko.cpp doRun"), ("conditional variants", "tools/normalizers/niema/niema.cpp doRun"), ("suggestions", "tools/spellcheckers/aspell/psi_aspell.cpp doRun"), ("joining", "tools/tokenizers/detok/detok.cpp doRun")],
     [H("token_variants", ["token_variants.cpp"], LAT + ["tools/normalizers/simplenorm/simplenorm_normalizer.cpp", "tools/normalizers/iayko/iayko.cpp", "tools/normalizers/niema/niema.cpp", "tools/spellcheckers/aspell/psi_aspell.cpp", "tools/tokenizers/detok/detok.cpp"] + CONV,
        "a 16th of 4096 sublattices x 32 tables and x 54 options of the cascade, 225 options of the conditional one x 128 sublattices; sequences of <=6 of 5 kinds of tokens in 4 modes; sequences of <=4 of 11 tokens", "all sublattices; sequences of <=7, <=5",
        inc=["tools/normalizers/simplenorm", "tools/normalizers/iayko", "tools/normalizers/iayko/plugin", "tools/normalizers/niema", "tools/spellcheckers/aspell", "tools/spellcheckers/aspell/plugin", "tools/tokenizers/detok", "common/plugins"], libs=LOG + PO)],
     "exhaustive enumeration of bounded lattices, options and engine behaviours through the real annotators against a model",
     "every lattice within the bound is given to the real annotators with engines in place of the plug-ins",
     observe=["SimplenormNormalizer", "Iayko", "Niema", "PSIAspell", "Detok"])

prop("F05", "The apertium reader cuts marked-up text exactly where its format rules say",
     "For every format file and input the apertium reader takes as markup exactly the leftmost matches of the format rules - at one place the rule first in the order of priority, or in the file - with the blanks before and the tabs after them, however many rules there are. "
     "What lies between is the text, each piece a FRAG edge; with --keep-tags markup stays in the text as an edge of the rule's type with its eos value, and without it nothing else is left or lost. "
     "Blank lines are dropped, character references are replaced by exactly the characters given for them, letter case counts as the file says, and an input without any markup is rejected.",
     ["inputs"], "all sequences of up to three pieces of markup and text under twelve rule sets and all options, substrings of ten longer ones; 0 to 66 rules with all orders of priority; all sequences of up to four references",
     "The mat tests read one sample per format.",
     ["formats/apertium/apertium_reader/apertium_deformatter.cpp", "formats/apertium/apertium_reader/apertium_lattice_reader.cpp", "formats/apertium/apertium_reader/format_rules.cpp", "formats/apertium/apertium_reader/format_specification.cpp"],
     [("markup and references", "formats/apertium/apertium_reader/apertium_deformatter.cpp processFormatRules"), ("format files", "formats/apertium/apertium_reader/format_specification.cpp"), ("edges", "formats/apertium/apertium_reader/apertium_lattice_reader.cpp doRun")],
     [H("apertium_reading", ["apertium_reading.cpp"], LAT + ["formats/apertium/apertium_reader/" + x + ".cpp" for x in ("apertium_deformatter", "apertium_lattice_reader", "format_rules", "format_specification")] + ["common/" + x + ".cpp" for x in
        ("processor", "processor_factory", "processor_file_fetcher", "file_fetcher", "its_data", "configurator", "stream_lattice_reader", "regexp", "xml_property_tree", "object_cache", "escaping")],
        "sequences of <=3 of 23 pieces x 12 rule sets (half of them for 3), 0..66 rules, sequences of <=4 of 11 references", "sequences of <=4 pieces, <=80 rules, <=5 references",
        inc=["formats/apertium/apertium_reader"], libs=LOG + PO + ["pcrecpp", "pcre"])],
     "exhaustive enumeration of bounded inputs and rule sets through the real reader against a model of the rules",
     "every input within the bound is read by the real reader with a generated format file",
     observe=["ApertiumLatticeReader", "ApertiumDeformatter", "FormatSpecification"])

prop("F09", "The graph and table writers show exactly the edges asked for",
     "For every lattice and options the DOT writer prints a well-formed DOT graph, and the Graphviz writer hands to Graphviz a graph, with exactly one arrow (with --tree one node) per edge with a tag asked for (symbols only if asked for; the DOT writer leaves discarded edges out), between its vertices, labelled with its text, tags and category whatever characters they have. "
     "With --tree arrows lead from each edge to the shown parts it is made of, numbered by partition if there are several; invisible arrows only align vertices without arrows, the output of Graphviz is passed on and nothing is left open. "
     "The morphology and phrases writers print one row per form edge and part of it: text, lemma up to the plus sign, category and values, in columns.",
     ["inputs"], "8192 sublattices with loose vertices, special characters, discarded edges, several partitions and late parts; combinations of all options spread over them",
     "The tests write three lattices with one set of options each.",
     ["formats/dot/dot_lattice_writer.cpp", "formats/gv/gv_lattice_writer.cpp", "formats/morphology/morphology-writer/morphology_lattice_writer.cpp", "formats/phrases/phrases-writer/phrases_lattice_writer.cpp", "common/aligning_writer_worker.cpp"],
     [("DOT graph", "formats/dot/dot_lattice_writer.cpp doRun"), ("Graphviz graph", "formats/gv/gv_lattice_writer.cpp printEdge"), ("tables", "formats/morphology/morphology-writer/morphology_lattice_writer.cpp doRun")],
     [H("graph_writers", ["graph_writers.cpp"], WR + ["formats/dot/dot_lattice_writer.cpp", "formats/gv/gv_lattice_writer.cpp", "formats/morphology/morphology-writer/morphology_lattice_writer.cpp", "formats/phrases/phrases-writer/phrases_lattice_writer.cpp", "common/lattice_worker.cpp"],
        "a 32nd of 8193 sublattices x 192 options of the DOT writer, a 64th x 384 of the Graphviz writer, all for the table writers", "an eighth of both, all for the table writers",
        inc=["formats/dot", "formats/gv", "formats/gv/plugin", "formats/utt", "formats/morphology/morphology-writer", "formats/phrases/phrases-writer", "common/plugins"], libs=LOG + PO)],
     "exhaustive enumeration of bounded lattices and options through the real writers; graphs compared with the lattice",
     "every lattice within the bound is written by the real writers, with a recorder in place of Graphviz",
     observe=["DotLatticeWriter", "GVLatticeWriter", "MorphologyLatticeWriter", "PhrasesLatticeWriter"])

GOBIO = ["tools/parsers/gobio/" + x for x in ("gobio.cpp", "avmatrix/av_ai_converter.cpp", "chart/gobio_limit_checker.cpp", "registrar/number_master.cpp", "registrar/zvalue_master.cpp",
         "rules/compile_gruleexpression.cpp", "rules/grule_helpers.cpp", "translator/grparser.cpp", "translator/grules.cpp", "translator/prandseq.cpp")] + ["gen:lex.grlex.cpp", "gen:grparser.bis.cpp", "common/put_zsyntree_into_lattice.cpp", "common/limit_checker.cpp"]
prop("G01", "The gobio parser builds exactly the constituents its rules license",
     "For any rules and any lattice of terminals the parser adds a constituent with given attributes over a span exactly when a rule (with its alternatives, optional symbols, head and conditions) builds it of adjacent constituents, and records every way of building it. "
     "The head passes its attributes on, a condition is evaluated with the values of the very constituents the rule is applied to, however long the rule, and the score is the sum of the scores of the parts and of the rule. "
     "The parse covers the text from the left with the longest constituents and among them the best-scored, and its trees are derivations by the rules; no grammar, a circular one included, makes the parser hang or crash.",
     ["inputs"], "all grammars of up to a number of rules over three categories, all conditions of up to three parts, longer rules with two conditions, alternatives and optional symbols; all short sentences",
     "The tests parse a few sentences with one grammar each; the interplay of rules, of conditions and of the binarisation of longer rules only shows over all small grammars.",
     ["tools/parsers/gobio/rules/tgbg_combinator.tpl", "tools/parsers/gobio/parser/agenda_parser.tpl", "tools/parsers/gobio/gobio.cpp"],
     [("binarisation of longer rules", "tools/parsers/gobio/rules/tgbg_combinator.tpl binarize_all_rules"), ("conditions", "tools/parsers/gobio/rules/expression_runner.tpl run, compile_gruleexpression.tpl"), ("choice of the parse", "tools/parsers/gobio/chooser/chooser.tpl go")],
     [H("gobio_parsing", ["gobio_parsing.cpp"], LAT + GOBIO + CONV,
        "all grammars of <=2 rules of 36 over 3 categories and sentences of <=3, of 3 rules for one sentence; conditions of <=2 of 23 parts, a part of those of 3; rules of 3 and 4 symbols with <=2 conditions, pairs of rules; 81 pairs of alternatives", "sentences of 4, three rules on 4 sentences, all conditions of 3 parts",
        inc=["tools/parsers/gobio"] + ["tools/parsers/gobio/" + x for x in "accommodater avmatrix chart chooser helpers parser registrar rules translator transporter trees".split()], flags=["-fno-access-control"], libs=LOG + PO + ["pcrecpp", "pcre"])],
     "exhaustive enumeration of bounded grammars, conditions and sentences through the real parser against a closure under the rules",
     "every grammar within the bound is read and every sentence parsed by the real parser, the whole chart being compared",
     observe=["Gobio", "tgbg_combinator", "agenda_parser", "GRParser"])

prop("F07", "The bracketing writer puts exactly the brackets asked for around the text",
     "For every lattice the bracketing writer leaves the text unchanged and puts around the span of every annotation with the tags asked for one pair of brackets in the format given - one for all annotations of a span with the same active elements, unless told not to collapse them - and nothing else; blanks, symbols and discarded annotations are left out as asked. "
     "Longer annotations are outside shorter ones and what is built of an annotation is outside it; a join operator gives the values of exactly the annotations which agree in the active elements. "
     "With disambiguation one of the longest annotations is taken at each place, with what it is built of.",
     ["inputs"], "sublattices of fourteen edges (crossing, nested, of the same span, discarded, with loose vertices), sixteen formats, eight sets of options, with and without symbols, collapsing and disambiguation",
     "The tests print a dozen fixed lattices in fixed formats.",
     ["formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp", "formats/bracketing/bracketing-writer/bracket_printer.hpp"],
     [("brackets in order", "formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp doRun_"), ("formats and join operators", "formats/bracketing/bracketing-writer/bracket_printer.hpp print_")],
     [H("bracketing", ["bracketing.cpp"], WR + ["formats/bracketing/bracketing-writer/bracketing_lattice_writer.cpp", "formats/bracketing/bracketing-writer/bracketing_quoter.cpp"],
        "a 47th of all combinations of a sublattice (<=6 edges), a format, options", "a seventh of all combinations, larger sublattices",
        inc=["formats/bracketing/bracketing-writer", "formats/utt"], libs=LOG + PO)],
     "exhaustive enumeration of bounded lattices, formats and options through the real writer against a model of its output",
     "every lattice, format and combination of options within the bound is given to the real writer",
     observe=["BracketingLatticeWriter", "BracketPrinter"])

prop("U01", "Letter case is converted as Unicode says, whole, first letter or rest",
     "For every valid UTF-8 text, lower-, upper- and title-casing gives the full case mapping (Unicode 6.0, with mappings to several letters) of each of its characters in turn, with the rules of Turkish and Azeri for dotted and dotless i; characters with no mapping stay as they are. "
     "Converting the head converts the first character only and converting the tail all but the first one. "
     "A text is said to be touched by a conversion exactly when the conversion would change it.",
     ["inputs"], "every Unicode code point, alone and in four contexts; all strings of up to four characters of twenty kinds, in all languages and cases",
     "The tests convert a dozen fixed strings.",
     ["utf8case/special_casing_converter.cpp", "utf8case/range_based_case_converter.cpp", "utf8case/general_case_converter.hpp", "utf8case/case_tables.cpp"],
     [("mappings to several letters", "utf8case/special_casing_converter.cpp convert"), ("other mappings", "utf8case/range_based_case_converter.cpp convert"), ("texts", "utf8case/general_case_converter.hpp convert, headConvert, tailConvert")],
     [H("case_conversion", ["case_conversion.cpp"], ["utf8case/" + x + ".cpp" for x in ("case_tables", "range_based_case_converter", "regular_contextual_case_converter", "simple_convert", "special_casing_converter", "string_case_converter_manager", "turkish_and_azeri_lower_contextual_case_converter", "turkish_and_azeri_upper_contextual_case_converter")] + ["common/psi_exception.cpp"],
        "all 1112063 code points x 3 cases x 4 languages, in contexts; all strings of <=4 characters of 20 x 3 cases x 5 languages (2 of them for 4 characters)", "strings of <=5")],
     "exhaustive enumeration of all characters and bounded strings through the real converters against the Unicode data",
     "every code point and every string within the bound is converted by the real code",
     observe=["StringCaseConverterManager", "GeneralCaseConverter"])

prop("U02", "File specifications find exactly their files; a wrong name, the nearest",
     "A file specification of a processor, with its parameters replaced by their values, finds exactly the regular files matching one of its patterns: `*' stands for any characters, `?' for one character of whatever length, `**' for any directories (at the end: for everything below), `,' and `;' separate patterns. "
     "Unknown or unclosed parameters are refused, and so is a specification of one file which matches none or several. "
     "For an unknown name of a processor the first of the nearest known names by edit distance is suggested, however far it is.",
     ["inputs"], "all patterns and names of up to five characters of one to three bytes; all path patterns of up to four segments of fourteen over a tree of files; pairs of specifications; all short names",
     "The tests try four patterns on one tree and one pair of names.",
     ["common/segment_glob.cpp", "common/ant_like_path_glob.cpp", "common/file_fetcher.cpp", "common/file_fetcher.hpp", "common/edit_distance.hpp"],
     [("patterns of names", "common/segment_glob.cpp matches"), ("patterns of paths", "common/ant_like_path_glob.cpp findMatchingFiles_"), ("parameters", "common/file_fetcher.cpp replaceParams_"), ("nearest name", "common/edit_distance.hpp")],
     [H("name_matching", ["name_matching.cpp"], ["common/segment_glob.cpp", "common/ant_like_path_glob.cpp", "common/file_fetcher.cpp", "common/psi_exception.cpp"] + [x for x in LAT if "logging" in x],
        "9331 globs x 1365 names; 41370 path patterns over 19 files in 13 directories, relative and absolute; pairs of 19 specifications; distances of 364 x 121 strings, choices of three", "globs and names of <=6, paths of 5 segments, triples",
        libs=LOG + ["boost_filesystem", "boost_system"])],
     "exhaustive enumeration of bounded patterns, names and paths through the real matchers against a definition of matching",
     "every pattern within the bound is matched by the real code with every name, or against a real tree of files",
     observe=["SegmentGlob::matches", "AntLikePathGlob", "FileFetcher", "findTheMostSimilarString"])

UCHARDET = ["uchardet/src/" + x + ".cpp" for x in "CharDistribution JpCntx LangBulgarianModel LangCyrillicModel LangGreekModel LangHungarianModel LangHebrewModel LangThaiModel nsHebrewProber nsCharSetProber nsBig5Prober nsEUCJPProber nsEUCKRProber nsEUCTWProber nsEscCharsetProber nsEscSM nsGB2312Prober nsMBCSGroupProber nsMBCSSM nsSBCSGroupProber nsSBCharSetProber nsSJISProber nsUTF8Prober nsLatin1Prober nsUniversalDetector uchardet".split()]
prop("U03", "Texts in the supported encodings are converted to UTF-8 and back whole",
     "A text in any supported encoding (those listed by --list-encodings) is converted to UTF-8, and a UTF-8 text to any of them, as a whole: every character, in any place (the first, the last, beside a null character), of any length, is the one the encoding's table gives, and going there and back gives the same text. "
     "A text which is not valid in its encoding, or which the target encoding cannot hold, is left as it was; if only its last character is cut, what is before it is converted. "
     "An encoding that is not known leaves the text alone, a text without the source encoding is converted from the detected one, and a detected encoding which is supported is known under the name the detector gives.",
     ["inputs"], "39 encodings x every byte, pair of bytes and character of the Basic Multilingual Plane or those of a byte encoding, words of 3-4 (thorough 3-6) characters from representative letters, marks and shifts, texts around every multiple of 50000 characters up to 200000 (thorough 400000)",
     "The tests convert five texts, none of which ends with a pending character, contains a null one or is longer than a line.",
     ["common/encoding_converter.cpp", "tiniconv", "uchardet"], [("conversion", "common/encoding_converter.cpp convert_"), ("names", "common/encoding_converter.cpp CHARSET_CODES"), ("detection", "common/encoding_converter.cpp detect_")],
     [H("encodings", ["encodings.cpp"], ["common/encoding_converter.cpp", "tiniconv/tiniconv.c", "tiniconv/tiniconv_desc.c"] + UCHARDET,
        "every byte, pair, character below U+10000 and word of 4 representatives in 39 encodings; lengths to 200000", "words of 6 representatives, every character below U+110000 in multi-byte encodings, lengths to 400000", libs=LOG)],
     "exhaustive enumeration of bounded texts through the real converter against the conversions of the GNU C library (iconv) into and out of the same encodings; exempt are the codes the two tables assign differently on purpose (private areas, KOI8-RU graphics, euro signs, byte order marks)", "Every text of the enumeration goes through the real EncodingConverter with the tiniconv and uchardet sources of the repository, and the result is compared byte by byte with iconv's; texts in UTF-8 also make the journey back.", observe=["EncodingConverter"])

prop("R01", "An input is read as its format says, whole, whatever stream it comes from",
     "The format of an input is recognized from its beginning: as PSI if its first line which is neither empty nor a comment begins a PSI edge, as UTT if it begins a UTT segment, else as the magic library says, office documents by the files in the archive. "
     "The guessing reader then puts in the lattice exactly what the reader for that format puts there for the whole input, however long it is and whatever stream it comes from (a string, a file, a pipe); recognizing takes nothing from the stream. "
     "A pipeline reads its input, converted from the given or detected encoding if asked to, as a whole and in order, from any stream and line by line too.",
     ["inputs"], "all sequences of up to three beginnings of 25 kinds with six lengths of the beginning examined, from four kinds of streams; long inputs around the sizes of buffers; all sets of archive members; all short inputs in nine encodings, converted, detected or not",
     "The tests recognize a dozen sample files, all read from small file streams.",
     ["common/file_recognizer.cpp", "formats/guessing/guessing_reader/guessing_reader.cpp", "common/stream_helpers.cpp", "framework/pipe_runner.cpp"],
     [("recognition", "common/file_recognizer.cpp refineFileExtension_"), ("guessing", "formats/guessing/guessing_reader/guessing_reader.cpp"), ("peeking", "common/stream_helpers.cpp"), ("conversion of the input", "framework/pipe_runner.cpp run_")],
     [H("guessing", ["guessing.cpp"], LAT + ["formats/guessing/guessing_reader/guessing_reader.cpp", "formats/txt/txt_lattice_reader.cpp", "formats/utt/utt_lattice_reader.cpp", "formats/utt/utt_quoter.cpp", "formats/psi/psi_reader/psi_lattice_reader.cpp"] +
        ["formats/apertium/apertium_reader/" + x + ".cpp" for x in ("apertium_deformatter", "apertium_lattice_reader", "format_rules", "format_specification")] + ["common/" + x + ".cpp" for x in
        ("file_recognizer", "stream_helpers", "quoter", "psi_quoter", "utt_like_quoter", "processor", "processor_factory", "processor_file_fetcher", "file_fetcher", "its_data", "configurator", "stream_lattice_reader", "regexp", "xml_property_tree", "object_cache", "escaping", "lattice_worker")],
        "sequences of <=3 of 25 pieces recognized, <=2 guessed with 6 blocks from 4 streams, 375 long inputs, 32 archives, 182 pairs of lengths", "sequences of 4 recognized, of 3 guessed",
        inc=[VH + "/stubreaders", "formats/guessing/guessing_reader", "formats/txt", "formats/utt", "formats/psi/psi_reader", "formats/apertium/apertium_reader"], ldflags=["-Wl,--wrap=magic_open", "-Wl,--wrap=magic_load", "-Wl,--wrap=magic_close"], libs=LOG + PO + ["pcrecpp", "pcre", "magic"]),
      H("input_encoding", ["input_encoding.cpp"], PIPE + ["framework/pipe_runner.cpp", "common/encoding_converter.cpp", "tiniconv/tiniconv.c", "tiniconv/tiniconv_desc.c"] + UCHARDET,
        "inputs of <=3 of 11 pieces and lengths to 50000 x 13 ways of conversion, whole and by lines, given in 6 ways", "inputs of <=4 pieces",
        mode="fast", inc=[VH + "/noperl", "framework", "tests"], libs=LOG + PO)],
     "exhaustive enumeration of bounded inputs, streams and encodings through the real readers against reading them directly",
     "every input within the bound is read by the real guessing reader and pipe runner, the readers needing plug-ins being replaced by recorders",
     observe=["GuessingReader", "FileRecognizer", "PipeRunner"])

prop("M01", "Every token gets exactly the analyses its lemmatizer gives for it",
     "A lemmatizer is asked about every token of its language (of category T or word, under the tag it was told to work on) as written, and about the token with its letters after the first, and with its first letter, in lower case where that changes it, and about nothing else. "
     "Every correction, normalization, lemma, lexeme and form it gives becomes one edge over the token, with the given category, text, attributes, score and rule, tagged with its level and the lemmatizer's own tags, built of the last one given of the level above. "
     "A compound tag of several values gives a description for every combination of its values, no more and no fewer.",
     ["inputs", "histories"], "all sequences of up to a number of analyses; all words of a list with answers about any of their variants, in four languages; tokens of all categories and tags; lattices of tokens; all tags of up to three or four of 25 components",
     "The tests run a lemmatizer that knows one word over one text, and parse six tags.",
     ["common/lemmatizer_annotator.hpp", "common/lemmatizer_output_iterator.cpp", "common/morfologik_tags_parser.cpp"],
     [("edges of analyses", "common/lemmatizer_annotator.hpp WorkerOutputIterator"), ("words asked about", "common/lemmatizer_annotator.hpp lemmatizeSingleWord"), ("compound tags", "common/morfologik_tags_parser.cpp expandDescriptions_")],
     [H("lemmatized_tokens", ["lemmatized_tokens.cpp"], LAT + ["utf8case/" + x + ".cpp" for x in ("case_tables", "range_based_case_converter", "regular_contextual_case_converter", "simple_convert", "special_casing_converter", "string_case_converter_manager", "turkish_and_azeri_lower_contextual_case_converter", "turkish_and_azeri_upper_contextual_case_converter")] +
        ["common/lemmatizer_output_iterator.cpp", "common/morfologik_tags_parser.cpp", "common/annotator.cpp", "common/annotator_factory.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp"],
        "sequences of <=4 of 9 analyses; 24 words, answers about any of 3 variants; 9 sets of tags, 7 categories; <=3 of 10 tokens; tags of <=3 of 25 components", "sequences of <=5 of 10; <=5 of 10 tokens; tags of <=4 components",
        inc=["utf8case"], libs=LOG + PO)],
     "exhaustive enumeration of lemmatizer answers, tokens and tags through the real annotator and parser against a reference model",
     "every case is run through the real annotator, with a lemmatizer that gives prepared answers, or the real parser",
     observe=["LemmatizerAnnotator", "MorfologikTagsParser"])

prop("M03", "The tagger leaves every token the interpretations of its best tag",
     "Token after token of each segment, the tagger asks its model about the tags of the token's interpretations not discarded yet (of the open classes, or number and name, for an unknown word), in the context of the token, its neighbours, their interpretations and the tag chosen before, and chooses the best one, or the one the model predicts if it knows none of them. "
     "Then exactly the interpretations agreeing with the tag chosen are left, the others are discarded, and a word left with none is given one of that tag, built of its lexeme of that part of speech, or of a new one. "
     "Training teaches the model the same contexts, with the tags of the interpretations, and changes nothing in the lattice.",
     ["inputs"], "all sequences of up to three of nineteen tokens with or without blanks between, divided any way into segments; families of models giving every order of the tags, with tags unknown to them, and sets of open classes",
     "The tests train on and tag one text of seven tokens.",
     ["tools/taggers/metagger/me_tagger.cpp", "tools/taggers/metagger/me_tagger.hpp"],
     [("choosing the tag", "tools/taggers/metagger/me_tagger.cpp getBestTag"), ("applying tags", "tools/taggers/metagger/me_tagger.cpp applyTokenTags"), ("contexts", "tools/taggers/metagger/me_tagger.cpp createContext")],
     [H("tagged_tokens", ["tagged_tokens.cpp"], LAT + ["tools/taggers/metagger/me_tagger.cpp"] + TAGGER,
        "1 of 19 tokens with 96 models, 2 tokens with all segments and 14 models, 3 tokens with one", "2 tokens with 96 models, 3 tokens with 5",
        inc=["maxent", "tools/taggers/metagger"], libs=LOG + PO)],
     "exhaustive enumeration of analysed sentences and models through the real tagger against a reference model",
     "every sentence within the bound is tagged, or learnt, by the real tagger with a prepared model in place of the maximum entropy library",
     observe=["MeTagger"])

prop("M02", "Every fragment is marked with the language its letters or bigrams imply",
     "Every fragment gets one annotation, over the same span and built of it, with its text and the language guessed: for texts shorter than 24 bytes the first language of which every word has a letter, for longer ones the language whose frequencies of bigrams are nearest to those of the whole text. "
     "Where no language is guessed the default one is put, or none if so asked; with guessing forced every fragment gets one of the languages asked for. "
     "Only the languages asked for are ever guessed, and languages that cannot be recognized are refused (a single one that is forced is taken as it is).",
     ["inputs"], "all texts of up to three or four of 18 pieces and of 16 longer pieces, texts of up to 39 repetitions, with all combinations of options; all lattices of up to a number of fragments",
     "The tests guess the language of four long and a few short texts.",
     ["tools/recognizers/langguesser/lang_guesser.cpp", "tools/recognizers/langguesser/bigram_language_model.cpp"],
     [("frequencies of bigrams", "tools/recognizers/langguesser/bigram_language_model.cpp countBigramsInText"), ("letters", "tools/recognizers/langguesser/lang_guesser.cpp guessLanguageByLetters"), ("options", "tools/recognizers/langguesser/lang_guesser.cpp guessLanguage")],
     [H("language_guessed", ["language_guessed.cpp"], LAT + ["tools/recognizers/langguesser/lang_guesser.cpp", "tools/recognizers/langguesser/bigram_language_model.cpp",
        "common/annotator.cpp", "common/annotator_factory.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp", "common/processor_file_fetcher.cpp", "common/file_fetcher.cpp", "common/its_data.cpp", "common/configurator.cpp"],
        "texts of <=3 of 18 and of 16 pieces, <=39 repetitions, 48 combinations of options; <=3 of 10 fragments", "texts of <=4 pieces; <=6 fragments",
        inc=["tools/recognizers/langguesser", "tools/translators/bonsai/rules"], libs=LOG + PO)],
     "exhaustive enumeration of texts, options and fragments through the real guesser against a reference computed of the same tables",
     "every text within the bound is given to real guessers made with every combination of options",
     observe=["LangGuesser", "BigramLanguageModel"])

prop("F10", "The NKJP reader reads exactly the annotations of the corpus",
     "For every document of the corpus (text, segmentation, morphosyntax, words, groups, names or senses) the reader appends exactly the texts of its segments, with a blank between two of them exactly where their given positions are apart, and annotates every segment, sentence, paragraph and division, built of its parts, with its attributes. "
     "Every interpretation of a segment becomes a lemma, a lexeme and forms with the attributes of its tag; of alternative forms exactly those not chosen are discarded.",
     ["inputs"], "all documents of up to a number of segments with any gaps, divided any way into sentences and paragraphs, of all kinds; all sets of up to three of thirteen interpretations with any choice; all texts of up to two divisions",
     "The tests read seven files of one paragraph, a file of each kind.",
     ["formats/nkjp/nkjp_lattice_reader.cpp", "formats/nkjp/nkjp_lattice_reader.hpp"],
     [("structure", "formats/nkjp/nkjp_lattice_reader.cpp doRun"), ("blanks", "formats/nkjp/nkjp_lattice_reader.hpp NKJPMorphosyntaxCommentGrammar"), ("segments", "formats/nkjp/nkjp_lattice_reader.cpp appendSegmentToLattice_")],
     [H("nkjp_reading", ["nkjp_reading.cpp"], LAT + ["formats/nkjp/nkjp_lattice_reader.cpp", "common/morfologik_tags_parser.cpp", "common/stream_lattice_reader.cpp", "common/processor.cpp", "common/processor_factory.cpp", "common/lattice_worker.cpp"],
        "<=4 segments of 13 words with all gaps and divisions, 6 sets of attributes; <=3 of 13 interpretations; 2 divisions of 44 kinds", "<=5 segments; 260 kinds of divisions",
        inc=["formats/nkjp"], libs=LOG + PO)],
     "exhaustive enumeration of corpus documents through the real reader against the annotations they were written of",
     "every document within the bound is written as XML and read by the real reader",
     observe=["NKJPLatticeReader"])

prop("T02", "Positional tags are read as every combination of their attributes' values",
     "A positional tag of Morfologik is read attribute by attribute: every known piece of it gives the attribute it belongs to, the first piece of an attribute counts, and pieces not known give nothing. "
     "Attributes with alternative values (separated by dots) give a reading for every combination of a value of each, and no other readings. "
     "The lexeme gets the part of speech and the attributes belonging to the lexeme, with alternatives joined by hyphens, and the readings of a form get the remaining attributes.",
     ["inputs"], "all tags of up to three of 31 pieces, and of up to five of nine pieces with up to five alternatives",
     "The tests read a few tags of one noun and one verb.",
     ["common/morfologik_tags_parser.cpp", "common/morfologik_tags_parser.hpp"],
     [("combinations", "common/morfologik_tags_parser.cpp expandDescriptions_"), ("lexeme and form", "common/morfologik_tags_parser.cpp removeLexemeAttributes_, getLexemeAttributes")],
     [H("tag_readings", ["tag_readings.cpp"], ["common/morfologik_tags_parser.cpp", "common/logging.cpp"], "tags of <=3 of 31 pieces, 4 and 5 of 9 pieces", "tags of <=4 of 22 pieces, <=6 of 9 pieces", libs=LOG + PO)],
     "exhaustive enumeration of tags through the real parser against the product of the values",
     "every tag within the bound is read by the real parser",
     observe=["MorfologikTagsParser"])

prop("G02", "The shallow parser groups and deletes exactly what its rules match",
     "Puddle applies its rules in order, each to the leftmost match first and then to what follows (a repeated one from the match on), over the sequence of the topmost annotations: the phrases, and the tokens with their interpretations not discarded. "
     "A grouping adds phrases over exactly the elements of its match part, for every combination of their interpretations, with the attributes of the head, and a deletion discards exactly the interpretations satisfying its condition at its element. "
     "Nothing else changes.",
     ["inputs", "histories"], "rules of up to three elements with all operators, contexts and nineteen conditions, deletions, repetitions and programs of up to three rules, over sentences of up to six tokens with up to two interpretations", "The tests parse a few fixed sentences with one rule file each and compare the printed trees.",
     ["tools/parsers/puddle/rule_matcher.cpp", "tools/parsers/puddle/rule.cpp", "tools/parsers/puddle/lattice_wrapper.cpp"],
     [("application", "tools/parsers/puddle/rule_matcher.cpp applyRules"), ("phrases", "tools/parsers/puddle/group_action.cpp apply"), ("patterns of rules", "tools/parsers/puddle/rule_loader.cpp compileToken")],
     [H("grouped_phrases", ["grouped_phrases.cpp"], LAT + TAGGER + ["tools/parsers/puddle/%s.cpp" % f for f in "puddle action add_action attach_action delete_action group_action join_action lattice_wrapper puddle_util rule rule_loader rule_matcher rule_modifier syntok_action tagset tagset_loader transform_action unify_action".split()],
        "34 one-element patterns x 8 contexts x 59 sentences, 230 patterns of 2-3 elements x 5 contexts x 17 sentences, 7 deletions of 16 elements x 4 contexts, 117 programs of two rules and up to 3 thirds, 63 repeated", "sentences of all 3 tokens, 630 patterns, all programs of three rules", inc=["tools/parsers/puddle"], libs=LOG + PO + ["pcrecpp", "pcre"])],
     "exhaustive enumeration of rules and sentences through the real parser against a reference parser",
     "every sentence within the bound is parsed by the real parser with rules read by its loader",
     observe=["Puddle"])
