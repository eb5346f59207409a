#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
A='semantics/oca-ast/src/'; B='semantics/oca-bundle/src/'; F='semantics/oca-file/src/ocafile/'; O='oca/src/'; D='semantics/oca-dag/src/'; T='transformation/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))

p('P01','Parsing any text ends in instructions or a reported error',
 'For every text, parsing it as a semantic OCAfile, as a transformation OCAfile or as an OCAfile of unknown kind returns either the parsed instructions or an error value; it never aborts the caller. The result depends only on the text: parsing it again gives the same instructions or the same error.',
 ['inputs'],'every UTF-8 text, well formed or not: grammar-derived files, mutations of them, splices of keywords and punctuation, arbitrary characters',
 'The tests parse about twenty hand-written valid files and three bad ones; the quantifier is over all texts, in particular the malformed ones users type.',
 [F+'mod.rs',F+'instructions/helpers.rs',F+'instructions/add.rs','oca-file/src/ocafile/mod.rs',T+'oca-file/src/ocafile/mod.rs'],
 [('pest grammar then conversion of pairs into commands',F+'mod.rs:parse_from_string'),('kind dispatch on the precompiler meta comment','oca-file/src/ocafile/mod.rs:parse_from_string')],
 ['oca_file_semantics::ocafile::parse_from_string','oca_file_transformation::ocafile::parse_from_string','oca_file::ocafile::parse_from_string'])

p('P02','A well-formed OCAfile parses to exactly the instructions it spells',
 'Parsing a well-formed OCAfile yields one command per instruction, in order, carrying exactly the written kind, overlay, language, attribute names, types, values, lists, maps and references, and the written meta values. Blank lines, comment lines, extra spaces between tokens, line continuations, instruction keyword case and a missing final newline do not change that result.',
 ['inputs'],'every sequence of well-formed instructions (ADD of attributes and of each overlay, REMOVE, FROM, meta comments) and every layout of it',
 'The grammar is tested by a few fixed files with fixed layout; the pairing of each construct with each layout is unbounded.',
 [F+'mod.rs',F+'instructions/add.rs',F+'instructions/helpers.rs',F+'instructions/remove.rs',F+'instructions/from.rs'],
 [('token to command conversion',F+'instructions/helpers.rs:extract_attribute / extract_content / extract_overlay_type'),('grammar','semantics/oca-file/src/ocafile.pest')],
 ['oca_file_semantics::ocafile::parse_from_string'])

p('P03','Instructions printed as an OCAfile parse back to the same instructions',
 'Printing a list of instructions as OCAfile text and parsing that text gives the same instructions in the same order: no name, type, language, value, list entry or reference is lost, merged, reordered or altered.',
 ['inputs'],'every list of ADD and REMOVE instructions obtained by parsing an OCAfile',
 'Existing tests print one or two fixed instruction lists and compare with a literal; each overlay x value-shape x quoting combination is its own case.',
 [F+'mod.rs',A+'ast/mod.rs'],
 [('OCAfile printer',F+'mod.rs:generate_from_ast'),('parser',F+'mod.rs:parse_from_string')],
 ['oca_file_semantics::ocafile::generate_from_ast'])

p('P04','Adding an existing or removing a missing attribute is rejected',
 'Validating an OCAfile accepts an instruction list exactly when no instruction adds an attribute that already exists at that point or removes an attribute or classification that does not exist at that point, taking into account all earlier additions and removals and what the bundle declares from which the file starts. The first offending instruction is the one that gets reported.',
 ['histories'],'every interleaving of additions and removals over a small set of names, starting from nothing or from a bundle',
 'Tests cover a duplicate ADD and one bad REMOVE; the rule is about the state reached by an arbitrary earlier history.',
 [A+'validator.rs',F+'mod.rs'],
 [('per-command validation against the preceding commands',A+'validator.rs:OCAValidator::validate')],
 ['oca_ast_semantics::validator::OCAValidator','oca_rs::facade::Facade::validate_ocafile'],
 [('existing attributes','names added and not yet removed by the preceding commands',A+'validator.rs:rule_add_attr_if_not_exist')])

p('P05','Instructions survive JSON serialization unchanged',
 'Serializing any parsed instruction to JSON and reading it back gives an equal instruction, for every instruction kind, overlay kind, attribute type and value shape. Serializing the same instruction always gives identical text, and the compact numeric codes of object kinds and overlay kinds map back to the kind they came from.',
 ['inputs'],'every command and instruction list the parser can produce, and every object kind and overlay kind',
 'Custom serializers per kind are covered by one or two fixed JSON literals; stored operation logs rely on the round trip for all of them.',
 [A+'ast/mod.rs',A+'ast/attributes.rs',A+'ast/recursive_attributes.rs'],
 [('hand-written Serialize/Deserialize of commands',A+'ast/mod.rs:impl Serialize for Command'),('object kind codes',A+'ast/mod.rs:impl From<u8> for ObjectKind')],
 ['serde_json on oca_ast_semantics::ast::{Command,OCAAst}'])

p('P06','A built bundle contains exactly what its instructions declare',
 'Building an accepted instruction list yields a bundle whose attributes, types, flags, classification, labels, descriptions, entries, entry codes, units, formats, encodings, cardinalities, conformances, conditions, links, framings and metadata are exactly those the instructions declare, with a later declaration for the same attribute (and language) replacing the earlier one and a removed attribute gone from everything. An overlay is present if and only if something was declared for it.',
 ['histories'],'every sequence of additions, overriding additions and removals over several attributes and languages',
 'Tests build a handful of fixed lists and mostly check that building succeeds or compare one identifier; the content of every overlay after every history is not sampled.',
 [B+'build.rs',B+'state/attribute.rs',B+'state/oca.rs',B+'state/oca/overlay/'],
 [('command application',B+'build.rs:apply_command'),('attribute merge',B+'state/attribute.rs:merge'),('overlay generation',B+'state/oca.rs:OCABox::generate_bundle')],
 ['oca_bundle_semantics::build::from_ast','serialized OCABundle'],
 [('OCABox','attributes, metadata and classification accumulated so far',B+'state/oca.rs:OCABox')])

p('P07','Bundle identifiers are deterministic and content-sensitive',
 'The identifiers of a bundle and of each of its objects depend only on the declared content: declaring the same content in any order, split over any number of instructions, in any run, gives the same identifiers. Two bundles with different declared content have different bundle identifiers. Every identifier is the digest of the object that carries it.',
 ['inputs','schedules'],'every declared content, every ordering and splitting of its declaration, and every in-memory hash iteration order',
 'Tests compare identifiers of two or three fixed bundles; independence from order and hash seeds is a relation between unboundedly many executions.',
 [B+'state/oca.rs',B+'state/oca/capture_base.rs',B+'state/oca/overlay.rs'],
 [('sorted serialization of attributes and overlays before hashing',B+'state/oca/capture_base.rs, '+B+'state/oca/overlay/*.rs'),('SAID derivation',B+'state/oca.rs:fill_said')],
 ['OCABundle::said','capture base and overlay SAIDs in the bundle JSON'])

p('P08','Bundle JSON loads back to the same bundle',
 'Encoding a built bundle as JSON and loading it gives an equal bundle that encodes to the same bytes, keeps every identifier, and regenerates to the same bundle when turned back into editable form.',
 ['inputs'],'every built bundle',
 'Tests load two or three fixed JSON documents; each overlay has its own serializer and its own reader.',
 [B+'state/oca.rs',B+'controller.rs',B+'state/oca/overlay/'],
 [('bundle (de)serialization',B+'state/oca.rs:serialize_overlays/deserialize_overlays'),('editable form',B+'state/oca.rs:From<OCABundle> for OCABox')],
 ['oca_bundle_semantics::controller::load_oca','OCABundle::encode','OCABox::from(bundle).generate_bundle'])

p('P09','A bundle converted to an OCAfile rebuilds to the same bundle',
 'Converting a built bundle directly to OCAfile text and building that text yields a bundle with the same identifier and content.',
 ['inputs'],'every built bundle',
 'One fixed bundle is converted in the tests; each overlay kind and value shape needs its own path back.',
 [B+'state/oca.rs',O+'facade/build.rs',F+'mod.rs'],
 [('bundle to instructions',B+'state/oca.rs:OCABundle::to_ast'),('instructions to text',F+'mod.rs:generate_from_ast')],
 ['oca_rs::facade::build::parse_oca_bundle_to_ocafile'])

p('P10','The bundle validator accepts built bundles and exposes tampering',
 'Every built bundle whose conditions are valid expressions over its attributes passes semantic validation. If any identifier, any link from an overlay to its capture base, or any content of the capture base or of an overlay in a bundle is altered, semantic validation reports errors. A condition that cannot be evaluated, or that mentions an attribute the bundle lacks or the conditioned attribute itself, is reported and named.',
 ['inputs','fault_sequences'],'every built bundle and every single alteration of a field, value, key, list element or identifier in its JSON form',
 'Tests tamper with one or two fixed fields of one bundle; the guarantee is over every position.',
 [B+'state/validator.rs',B+'state/oca.rs'],
 [('recomputation of identifiers',B+'state/validator.rs:validate / Validator::validate')],
 ['oca_bundle_semantics::state::validator::{validate,Validator}'])

p('P11','Translation completeness is reported exactly',
 'With a set of enforced languages, validation of a bundle reports exactly the missing languages, unexpected languages, and attributes or metadata keys lacking a translation among the metadata, label, information and entry overlays that the bundle has; a bundle complete in all of them reports no translation error.',
 ['inputs'],'every bundle and every set of enforced languages',
 'Two fixed examples are tested; the rule quantifies over subsets of languages, overlays and attributes.',
 [B+'state/validator.rs'],
 [('translation checks',B+'state/validator.rs:validate_meta/validate_translations')],
 ['Validator::enforce_translations(..).validate'])

p('P12','Conditions evaluate as their expression says',
 'Checking a declared condition against values of the attributes it mentions returns the truth value of the expression with each mention replaced by that attribute\'s value; a mention of an attribute without a value or of the conditioned attribute itself, or a condition that has no truth value, is reported as an error, never an abort. The stored condition mentions exactly the declared attributes, in order of first position, wherever they occur.',
 ['inputs'],'every expression over comparisons and logic with any number and order of attribute mentions, and every valuation',
 'Tests evaluate three fixed expressions; placeholders interact by number and order.',
 [B+'state/oca/overlay/conditional.rs'],
 [('placeholder numbering and substitution',B+'state/oca/overlay/conditional.rs:set_condition/check_condition')],
 ['Conditionals::{set_condition,check_condition}'])

p('P13','Building step by step equals building at once',
 'Building an instruction list records one step per instruction, each step\'s parent identifier being the identifier reached before it and its result the bundle reached after it. Building a prefix and then the remaining instructions starting from that bundle gives the same bundles as building the whole list.',
 ['histories'],'every accepted instruction list and every split point',
 'Tests check one or two step lists; incremental equivalence over all splits is not touched.',
 [B+'build.rs',B+'state/oca.rs'],
 [('step recording',B+'build.rs:from_ast')],
 ['oca_bundle_semantics::build::from_ast'])

p('P14','Stored bundles are returned identical, across re-submission and restart',
 'After an OCAfile is built through the facade, fetching the resulting identifier returns the identical bundle, and keeps doing so after any further builds, resubmission of the same file, and reopening of the persistent stores. Building the same OCAfile again returns the same identifier and leaves what is listed unchanged.',
 ['histories','configurations'],'every sequence of builds, rebuilds and reopenings over in-memory, sled and file-system stores',
 'Tests build one file into fresh in-memory stores and fetch it back once.',
 [O+'facade/build.rs',O+'facade/fetch.rs',O+'data_storage.rs'],
 [('write of bundles and objects',O+'facade/build.rs:build / build_step'),('fetch',O+'facade/fetch.rs:get_oca_bundle')],
 ['Facade::{build_from_ocafile,get_oca_bundle,fetch_all_oca_bundle,fetch_all_capture_base}'])

p('P15','Recorded history rebuilds the bundle it belongs to',
 'For every bundle built through the facade, its recorded steps start from nothing, are linked parent to child, end in that bundle, and reading them always terminates. The OCAfile text and the instruction list regenerated from the history rebuild to a bundle with the same identifier.',
 ['histories'],'every sequence of builds, including extensions of earlier bundles, repeated instructions, and instructions that undo earlier ones',
 'Tests regenerate the OCAfile of one straight-line history; histories that revisit an earlier state are not sampled.',
 [O+'facade/build.rs',O+'facade/fetch.rs'],
 [('operation log keyed by bundle identifier',O+'facade/build.rs:build_step'),('walk back to the root',O+'facade/fetch.rs:get_oca_bundle_steps')],
 ['Facade::{get_oca_bundle_steps,get_oca_bundle_ocafile,get_oca_bundle_ast}'],
 [('oca.<said>.operation','parent identifier and instruction that produced this bundle',O+'facade/build.rs')])

p('P16','A rejected OCAfile changes nothing and names what is wrong',
 'When an OCAfile is rejected (syntax error, rule violation, unknown attribute, unresolvable name or unknown starting bundle) the call returns errors and every store, listing, search result and named reference is exactly as before. An OCAfile that starts from an unknown bundle is always rejected.',
 ['histories','fault_sequences'],'every mixture of accepted and rejected submissions, with the defect at any position of the file',
 'Tests check that one or two bad files return an error, not that state is untouched.',
 [O+'facade/build.rs',B+'build.rs'],
 [('validation before any write',O+'facade/build.rs:validate_ocafile / build_from_ocafile'),('starting bundle check',O+'facade/build.rs:parse_and_check_base')],
 ['Facade::{build_from_ocafile,validate_ocafile}'])

p('P17','A fetched bundle comes with exactly its transitive dependencies',
 'Fetching a bundle with dependencies returns that bundle and the bundle of every identifier its attributes reference, directly or through arrays and other referenced bundles, each once and nothing else, however often it is referenced; fetching without dependencies returns none.',
 ['inputs','histories'],'every graph of bundles referencing each other by identifier or name, directly, in arrays and in nested arrays',
 'One test uses a single direct reference; depth, fan-out, sharing and arrays are unsampled.',
 [O+'facade/fetch.rs'],[('dependency walk',O+'facade/fetch.rs:retrive_all_references / get_oca_bundle')],
 ['Facade::get_oca_bundle(said, true)'])

p('P18','Named references resolve to the bundle last given that name',
 'A reference by name in an OCAfile, as attribute type, array element or link target, becomes the identifier of the bundle most recently built under that name, and building with the name or with that identifier gives the same bundle. An unknown name is rejected with an error naming it, the listing of names shows each name once with its current identifier, and the OCAfile text of a stored bundle, dereferenced, holds no names and rebuilds that bundle. References kept outside the facade are used, and updated, in the same way.',
 ['histories'],'every sequence of named builds, re-used names, and references to known and unknown names',
 'Two tests use one name each; rebinding and the different reference positions are not covered.',
 [O+'facade/build.rs',O+'local_references.rs',O+'facade/fetch.rs',B+'build.rs'],
 [('name table',O+'local_references.rs'),('replacement at build',A+'ast/recursive_attributes.rs, '+B+'state/oca.rs:replace_refn_with_refs')],
 ['Facade::{build_from_ocafile,fetch_all_refs,get_oca_bundle_ocafile}'])

p('P19','Paging through a listing yields every stored item exactly once',
 'For every page size, walking the pages of the bundle listing or of the capture base listing yields every distinct stored item exactly once, page sizes and the reported total are right, and pages past the end are empty.',
 ['histories','configurations'],'every set of stored bundles, page size and page number',
 'One test lists one item with one page size.',
 [O+'facade/fetch.rs',O+'repositories/oca_bundle_cache_repo.rs',O+'repositories/capture_base_cache_repo.rs'],
 [('limit/offset queries',O+'repositories/oca_bundle_cache_repo.rs:fetch_all'),('metadata',O+'facade/fetch.rs:fetch_all_oca_bundle')],
 ['Facade::{fetch_all_oca_bundle,fetch_all_capture_base}'])

p('P20','Search finds a bundle by the words of its metadata, and only those',
 'Searching for words (of three or more letters or digits) returns exactly the bundles that have, in one of their languages, all of these words in their name or description, ignoring case; parts of words count, and a requested language decides the order only. Each bundle is returned once, with its matching text, paged and counted consistently. Any query text yields a result, never an abort, and leaves the facade usable.',
 ['inputs','histories'],'every set of bundles with metadata in several languages, and every query text, language and page',
 'One test runs one single-word query against one bundle.',
 [O+'facade/fetch.rs',O+'repositories/oca_bundle_fts_repo.rs'],
 [('full text index',O+'repositories/oca_bundle_fts_repo.rs:insert/search')],
 ['Facade::search_oca_bundle'])

p('P21','Object relations are complete and symmetric',
 'For every bundle built through the facade, exploring its identifier shows exactly its capture base and overlays, exploring its capture base shows every such bundle and overlay, and exploring an overlay shows the capture base and every bundle that contains it, each with its right kind. Identifiers never built yield nothing.',
 ['histories'],'every set of built bundles, including ones sharing capture bases and overlays',
 'One test explores one bundle.',
 [O+'facade/explore.rs'],[('relation records',O+'facade/explore.rs:add_relations')],
 ['Facade::explore'])

p('P22','Every storage backend behaves as a namespaced map',
 'Storing a value under a namespace and key makes exactly that value readable there, overwriting any previous one and affecting no other key or namespace; listing a namespace, where supported, returns exactly its current entries; persistent backends return the same after reopening. On the file system storage an insertion that fails, or is cut short by the end of the process, leaves the earlier value (or, if cut short, the new one) readable in whole; a value that cannot be read is an error, not an absence; handles used at once never read part of a value; and a storage without a usable place, or moved to another one, reports errors or keeps the values of each place apart.',
 ['histories','configurations','fault_sequences','schedules'],'every sequence of insert, get, list, reopen and configuration over all backends, with arbitrary value bytes; every failure of a write; every interleaving of handles',
 'Backends have no behavioural tests beyond being constructed.',
 [O+'data_storage.rs'],[('backends',O+'data_storage.rs:impl DataStorage')],
 ['DataStorage::{insert,get,get_all}'])

p('P23','Transformation files build to exactly the declared mapping',
 'Parsing a transformation OCAfile yields one command per instruction with the written attribute pairs and meta values, and building it yields a transformation whose mapping is exactly the declared pairs with later ones replacing earlier ones, with source and target as given; without both, a file that has meta values at all is rejected. Its identifier depends only on source, target and the pairs in their order, not on how they are laid out or divided into instructions, differs for different content, verifies against its own JSON, and survives JSON serialization.',
 ['inputs'],'every transformation file of renames and links, with any layout',
 'Two fixed files are tested.',
 [T+'oca-file/src/ocafile/mod.rs',T+'transformation-file/src/build.rs',T+'transformation-file/src/state/mod.rs',T+'ast/src/ast/mod.rs'],
 [('parser',T+'oca-file/src/ocafile/mod.rs:parse_from_string'),('build',T+'transformation-file/src/build.rs:from_ast')],
 ['oca_file_transformation::ocafile::parse_from_string','transformation_file::build::from_ast'])

p('P24','Standards are accepted exactly when they are URNs of a known namespace',
 'A standard is accepted exactly when it is, in any mix of cases, a valid URN of a known namespace (ietf, iso) whose name satisfies the syntax of that namespace (RFC 2648, RFC 5141); anything else is rejected with an error. The same verdict decides whether a standard is read from JSON and whether a bundle whose standard overlay holds it is loaded, and a standard read is written again in lower case, standards of an overlay in the order of their attributes.',
 ['inputs'],'every string',
 'A few fixed strings are tested.',
 [B+'state/standard.rs'],[('namespace table of patterns',B+'state/standard.rs:Standard::validate')],
 ['Standard::{new,validate}'])

p('P25','A combined bundle document encodes and loads without loss',
 'A combined document holding a semantic bundle and transformations encodes to JSON that carries every part, and an identifier derived only from the content, the same that is computed for the bundle itself; loading the JSON gives back the same parts with the same identifiers.',
 ['inputs'],'every semantic bundle and every list of transformations',
 'One fixed example is tested.',
 [O+'facade/bundle.rs'],[('assembly and loading',O+'facade/bundle.rs:Bundle::{add,fill_said,encode}, load_oca')],
 ['oca_rs::facade::bundle::{Bundle,load_oca}'])

p('P26','Errors point at the instruction that caused them',
 'When an OCAfile that parses cannot be built because of some of its instructions, each of them is reported, and each error carries the line on which its instruction starts and its text, wherever it stands, whatever comments, blank lines and continued or failing instructions precede it, and whether or not the file starts from an existing bundle.',
 ['inputs'],'every layout of an accepted file with offending instructions inserted at any positions',
 'One fixed file with one error is tested.',
 [F+'mod.rs',B+'build.rs',O+'facade/build.rs'],
 [('command metadata',F+'mod.rs:parse_from_string'),('error mapping',B+'build.rs:from_ast')],
 ['oca_rs::facade::build::build_from_ocafile'])

p('P27','Each object of a stored bundle can be fetched by its identifier',
 'For every bundle built through the facade, fetching its capture base\'s identifier or any of its overlays\' identifiers as objects returns exactly that object, in the order requested and in any combination; an identifier that stands for no object yields an error, never an abort.',
 ['histories'],'every set of built bundles and every list of identifiers of their parts',
 'One test fetches the objects of one bundle.',
 [O+'facade/fetch.rs',O+'facade/build.rs'],[('object store',O+'facade/build.rs:build_step'),('object fetch',O+'facade/fetch.rs:get_oca_objects')],
 ['Facade::get_oca_objects'])

p('P28','The version graph records every step with the right parents',
 'For every build, the version records contain per step the instruction and its digest, the resulting bundle with its parent and contained object identifiers, and the affected capture base or overlay with the version of it recorded before and the instruction that produced it. In the store a version keeps the record of the first way it was derived, and following parents always ends at a first version.',
 ['histories'],'every accepted instruction list',
 'One fixed list is tested for not failing.',
 [D+'lib.rs'],[('model derivation',D+'lib.rs:build_core_db_model')],
 ['oca_dag_semantics::build_core_db_model','core_model records in the store'])

p('P29','A malformed bundle document is an error, not an abort',
 'Loading any bytes as a semantic bundle or as a combined bundle document returns the bundle or an error, and validating or converting any bundle that loads returns a verdict; none of these aborts.',
 ['inputs','fault_sequences'],'every byte string, in particular every structural mutation of a valid bundle document',
 'Only valid documents are loaded in tests.',
 [B+'controller.rs',B+'state/oca.rs',O+'facade/bundle.rs',A+'ast/recursive_attributes.rs'],
 [('deserialization',B+'state/oca.rs:deserialize_overlays')],
 ['controller::load_oca','facade::bundle::load_oca','validator::validate'])

p('P30','Building any parsed OCAfile ends in a bundle or reported errors',
 'For every OCAfile that parses, and every list of instructions read from JSON, building (and for a file validating) it returns a bundle or a non-empty list of errors and never aborts, whatever instructions it holds and in whatever order. A declaration for an undeclared attribute, in an unknown language or with an unsupported value is reported as an error.',
 ['inputs','histories'],'every parsable instruction sequence, including useless, contradictory and incomplete ones',
 'Tests build sensible files only.',
 [B+'build.rs',O+'facade/build.rs'],
 [('command application',B+'build.rs:apply_command'),('error collection',B+'build.rs:from_ast')],
 ['oca_rs::facade::build::build_from_ocafile','Facade::validate_ocafile'])

p('P31','A build cut short harms nothing stored and can be completed',
 'When the process ends at any point while a file is being built, then after reopening every bundle built before is unharmed (same bundle, history and objects), everything listed or found can be fetched with its history, relations and objects, and building the file again completes it: stores, listings and names are as if it had never been interrupted.',
 ['crash_points','histories'],'every history of builds, every file, and an end of the process before any of the writes to the stores or to the search database that the file causes, also twice',
 'No test ends a build half way.',
 [O+'facade/build.rs',O+'facade/explore.rs',O+'facade/fetch.rs'],
 [('order of the writes of a build',O+'facade/build.rs:build'),('write-once records',O+'facade/build.rs:build_step / insert_version')],
 ['Facade::{build_from_ocafile,get_oca_bundle,get_oca_bundle_steps,explore,get_oca_objects,fetch_all_oca_bundle}'])

p('P32','A well-formed document written elsewhere is accepted, kept and editable',
 'Every well-formed bundle document (any capture base, flagged attributes, every overlay kind including the standard, attribute mapping, entry code mapping and label category ones, any overlay version) is loaded, gets the verdict its identifiers deserve from the validator, and is written back byte for byte, any number of times. Opening it for editing and building the result keeps its capture base, flagged attributes and overlays.',
 ['inputs'],'every well-formed bundle document, not only those the software itself would write',
 'Tests load a few fixed documents.',
 [B+'state/oca.rs',B+'state/validator.rs'],
 [('deserialization',B+'state/oca.rs:deserialize_overlays'),('conversion for editing',B+'state/oca.rs:From<OCABundle>'),('verdict',B+'state/validator.rs:validate')],
 ['controller::load_oca','validator::validate','OCABundle encode','From<OCABundle> for OCABox'])

p('P33','A failing store is reported and loses nothing',
 'When a read or write of a store, or a write of the search database, fails while a file is built, the build ends and reports it with an error, or everything about the bundle is stored nonetheless; the bundles stored before are unharmed; once the store works again, building the file again completes it; and what is read while a store fails is the right answer or an error.',
 ['fault_sequences','histories'],'every history of builds, every file, and a failure of any of the store or search database operations that the file causes, or of all from one on',
 'Tests use stores that never fail.',
 [O+'facade/build.rs',O+'facade/explore.rs',O+'facade/fetch.rs','oca/src/repositories/oca_bundle_cache_repo.rs'],
 [('storing a built bundle',O+'facade/build.rs:build'),('relations',O+'facade/explore.rs:add_relations')],
 ['Facade::{build_from_ocafile,get_oca_bundle,explore,get_oca_objects,fetch_all_oca_bundle,search_oca_bundle}'])

p('P34','A bundle composed by hand holds what was set',
 'A bundle composed through the programming interface (attributes with their setters, added to the box in any number of pieces, changed in place, flagged, removed; metadata; classification) holds exactly what was set: a later simple value replaces the earlier one, values of further languages, link targets, frames and frame terms are added. It has the same content and identifiers as the bundle built from instructions that say the same, however it was put together, and generating it again, or from the bundle itself, gives the same bundle.',
 ['inputs','histories'],'every order and division of settings over attributes, languages, targets and frames',
 'Tests compose one bundle in one way.',
 [B+'state/attribute.rs',B+'state/oca.rs',B+'state/oca/overlay.rs'],
 [('merging',B+'state/attribute.rs:merge'),('generation',B+'state/oca.rs:generate_overlays')],
 ['OCABox::{add_attribute,remove_attribute,add_classification,generate_bundle}','Attribute setters'])

p('P35','Equal instructions are interchangeable as values and as keys',
 'Two instructions that say the same, whatever the order in which the entries of their maps were given, are equal, hash equally, count once in a set and find each other in a map; two that say different things are not equal and both stay in a set. Holds for semantic instructions and for transformation instructions, and for whole instruction lists.',
 ['inputs','programs'],'every instruction, every order of giving its entries, and every pair of different instructions',
 'Tests hash no instruction, and hash collisions or differing orders show only for some inputs.',
 [A+'ast/mod.rs','transformation/ast/src/ast/mod.rs'],
 [('hashing',A+'ast/mod.rs:impl Hash'),('equality',A+'ast/mod.rs:PartialEq')],
 ['Command / CommandMeta / Content Hash, Eq'])

p('P36','A damaged stored record is reported, not fatal and not believed',
 'After stored records are removed, emptied, cut short, overwritten, changed in a byte, continued or replaced by other records, or the search database is damaged likewise, every reading operation (bundles, dependencies, histories, OCAfiles, instructions, relations, objects, names, listings) and every further build ends with an answer or a reported error: none aborts and none goes on for ever. What does not depend on a damaged record is answered as before; what needs a record that cannot be read any more is not answered.',
 ['fault_sequences','histories'],'every history of builds, every stored record of it and every damage to one or several of them',
 'Tests read only what was written a moment before.',
 [O+'facade/explore.rs',O+'facade/fetch.rs'],
 [('relations',O+'facade/explore.rs:explore'),('histories',O+'facade/fetch.rs:get_oca_bundle_steps'),('bundles',O+'facade/fetch.rs:get_oca_bundle')],
 ['Facade::{get_oca_bundle,get_oca_bundle_steps,get_oca_bundle_ocafile,get_oca_bundle_ast,explore,get_oca_objects,fetch_all_refs,fetch_all_oca_bundle,fetch_all_capture_base}'])

p('P37','The version graph keeps every version and how it came to be',
 'Building instructions into a version graph stores every version under its identifier, exactly as applying those instructions yields it, with the version it came from and the instruction that made it, and any stored version can be continued from, also after the store was reopened. An instruction that cannot be carried out, an unknown or unreadable version, or a failing store ends in an error, with nothing stored that was not made. Adding nodes to the graph records the parent of each node and all children of each parent in order, whatever their names.',
 ['histories','inputs','fault_sequences'],'every history of builds and nodes, every point at which the store fails, and every name',
 'The tests of the version graph are ignored or look at nothing.',
 ['semantics/oca-dag/src/versioning/mod.rs','semantics/oca-dag/src/versioning/ocafile.rs'],
 [('versions','semantics/oca-dag/src/versioning/ocafile.rs:build_oca'),('nodes','semantics/oca-dag/src/versioning/mod.rs:Graph::add')],
 ['oca_dag_semantics::versioning::{Graph, ocafile::build_oca}','oca_dag_semantics::data_storage::DataStorage'])

p('P38','Optional features change only what they add',
 'Without local-references the facade answers every history of files that refer to no names with the same bundles, documents, histories, OCAfiles, relations, objects, listings and search results as with it, and files that do refer to names are built or refused, with no abort. Without format_overlay a program builds to the same bundle as with it once its FORMAT instructions are left out, and with them the result differs in nothing but the format overlay.',
 ['configurations','histories','programs'],'every history of files and every program, under each combination of the optional features',
 'The tests are run under one set of features, and none compares two.',
 [O+'facade/build.rs',O+'facade/fetch.rs','semantics/oca-bundle/src/state/attribute.rs','semantics/oca-bundle/src/state/oca.rs'],
 [('references',O+'facade/build.rs:validate_ocafile'),('OCAfiles',O+'facade/fetch.rs:get_oca_bundle_ocafile'),('attributes','semantics/oca-bundle/src/state/attribute.rs:merge'),('bundles','semantics/oca-bundle/src/state/oca.rs')],
 ['cargo features local-references, format_overlay','Facade','oca_bundle_semantics::build::from_ast'])

ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
