prop("C01", "Fields and indices keep consistent quantum numbers",
     "A field put on indices, given fresh indices, conjugated, differentiated, stripped of derivatives, re-indexed or multiplied always carries exactly the irrep, charges, statistics, flavour count and conjugation that its definition implies: conjugation twice is the identity and flips Lorentz/colour/charges, and turning an indexed field back into a field returns the original. Index strings that do not fit the irrep are rejected.",
     "every irrep, charge assignment, statistics, flavour number, conjugation, derivative structure and sequence of operations",
     "core_test.py looks at a handful of Standard-Model fields; a lost attribute only shows for particular combinations (a conjugated fermion with a derivative, three flavours, a mixed irrep).",
     [T + "core.py", T + "utils.py", T + "sm.py"], [("Field / IndexedField / Index / Operator", T + "core.py"), ("D()", T + "core.py")],
     "runtime monitor over random operation sequences against a reference quantum-number model", "Random sampling of irreps (each Dynkin digit <= 3) and operation sequences; oracle is an independent bookkeeping model.",
     observe=["Field attributes", "IndexedField.field", "Operator.fields/free_indices/dynkin"])
prop("C02", "Products of fields decompose into the right irreps",
     "Decomposing a product of fields yields exactly the irreps of the Lorentz x SU(3) x SU(2) tensor product, each with its full multiplicity, with additive charges and a history that leads back to the factors; conjugating commutes with decomposing.",
     "every list of fields (any irreps, charges, length)",
     "tests multiply two or three Standard-Model doublets/triplets; a wrong multiplicity or a missing irrep shows only for larger representations.",
     [T + "core.py"], [("decompose_product / Field.__mul__", T + "core.py")],
     "runtime monitor: output compared with an independent weight-diagram (Racah-Speiser) decomposition", "Random products of 2-4 fields; characters computed from weights with no shared code.",
     observe=["decompose_product", "Field * Field", "history, multiplicity"])
prop("C03", "Simplification never changes, drops or invents an operator",
     "Simplifying an operator returns an operator with the same tensor structure up to sign, and zero only if the operator vanishes identically by the (anti)symmetry of its fields and contractions; for operators with at most one repeated field it decides vanishing and equality exactly. Cleaning a list of operators keeps one representative per inequivalent non-vanishing operator and nothing else.",
     "every fully or partly contracted product of fields, however its dummy indices are named and its factors ordered",
     "tests compare a few Weinberg-like contractions; Fermi/Bose symmetry signs, dummy naming and ordering matter for all products.",
     [T + "core.py", T + "contract.py"], [("Operator.safe_simplify / safe_nocoeff", T + "core.py"), ("clean_operators, is_equivalent", T + "contract.py")],
     "runtime monitor: each result re-evaluated in components (Grassmann polynomial) and by graph canonicalisation", "Soundness on every sampled operator; completeness only on the class where sympy 1.2's own canonicaliser is complete (DESIGN.md).",
     observe=["Operator.simplify", "Operator.safe_simplify", "contract.clean_operators"])
prop("C04", "Invariants of given fields are singlets, complete and not repeated",
     "The invariants built from a list of fields contain only singlets under the requested groups with the ignored indices left open, span every independent singlet that group theory allows (none exactly when there is none), and list no two operators that differ only by relabelling.",
     "every list of fields and every set of ignored index kinds (colour: up to three (anti)triplets as documented)",
     "contract_test.py pins a few outputs; whether the span is complete depends on the whole field list.",
     [T + "contract.py"], [("invariants / unsimplified_invariants / colour_singlets / extract_relabellings / clean_operators", T + "contract.py")],
     "runtime monitor: rank of the returned operators in components vs number of singlets from characters", "Random + fixed field lists up to six fields; one recorded known finding.",
     observe=["invariants", "unsimplified_invariants", "colour_singlets"])
prop("C05", "The operator catalogue is complete, gauge invariant and has no duplicates",
     "Every shipped effective operator is an SU(2) singlet (isospin fully contracted) with zero hypercharge and baryon number, |ΔL| = 2, consistent dimension, topology type and pickle form; for every field content in the catalogue each inequivalent isospin contraction occurs exactly once; the Standard-Model fields have the standard, anomaly-free quantum numbers.",
     "every operator of the catalogue and every contraction of its field content",
     "operators_test.py checks one property of a few names; completeness is about contractions that are not in the list.",
     [C + "operators.py", C + "operators.p", C + "deriv_operators.p", T + "sm.py", C + "core.py"],
     [("EFF_OPERATORS / DERIV_EFF_OPERATORS", C + "operators.py"), ("EffectiveOperator", C + "core.py")],
     "exhaustive run-time audit of the shipped catalogue against brute-force contraction enumeration", "Exhaustive over the shipped data; oracle enumerates contractions independently.",
     observe=["EFF_OPERATORS", "DERIV_EFF_OPERATORS", "EffectiveOperator attributes"])
CP = [C + "completions.py", C + "core.py"]
prop("C06", "Every coupling of a completion is well formed",
     "Every interaction term of every completion found is a Lorentz scalar and gauge singlet with no open indices (other than generation), conserves hypercharge, has mass dimension at most four with at most two fermions, does not vanish identically, and contains at least one exotic field; the couplings contain exactly the operator's external fields (with their flavour index), and exactly the exotics that the completion lists, each propagator ending in two couplings.",
     "every completion of every effective operator (with or without derivatives)",
     "tests count completions of a few dimension-five/seven operators; a coupling that is not invariant or vanishes only occurs for particular partitions and epsilon structures.",
     CP, [("construct_completion / replace_and_mutate / contract / process_derivative_term", CP[0]), ("cons_completion_field", CP[1])],
     "runtime monitor over every completion produced, each coupling read as a tensor network and checked by an independent evaluator", "Catalogue operators of dimension 5-9 and random operators; slow catalogue operators only in the thorough tier.",
     observe=["operator_completions", "deriv_operator_completions", "Completion.terms/exotics"])
prop("C07", "A completion's diagram, couplings and operator agree",
     "Every completion's graph is a tree whose leaves are the operator's fields and whose internal lines are its exotics, each vertex is one coupling with the fields meeting there (lines matched with the conjugate at the other end), and contracting the exotics out of the couplings gives back exactly the operator's gauge structure. Different exotics of one completion never share a symbol and one symbol never stands for two sets of quantum numbers.",
     "every completion of every effective operator",
     "tests never rebuild the operator from the couplings.",
     CP + [C + "topologies.py"], [("partition_completion / replace_and_mutate", CP[0]), ("Completion", CP[1])],
     "runtime monitor: integrates the exotics out and compares labelled graphs", "As C06; graph isomorphism by networkx VF2 on independently built index-flow graphs.",
     observe=["Completion.graph/partition/terms/exotics/operator"])
prop("C08", "The U(1) symmetries found for a model are exactly the conserved charges",
     "For any model, the symmetry finder returns one independent charge assignment per U(1) under which all couplings, mass terms and the Standard-Model Yukawa couplings are neutral: every returned assignment is conserved by every term, none is missing, and the operator the model generates is neutral under each; completions of lepton-number-violating operators conserve only hypercharge and baryon number.",
     "every set of couplings and exotics",
     "tests check the count of two models.",
     [T + "lagrangian.py", C + "core.py"], [("Lagrangian.u1_symmetries / term_to_row / clean_fields", T + "lagrangian.py"), ("mass_term, dirac_partner", C + "core.py")],
     "runtime monitor: every returned charge vector is multiplied back, and the dimension compared with an exact rational nullity", "Completions, subsets of their couplings and unions of two completions.",
     observe=["Lagrangian.u1_symmetries", "Lagrangian.num_u1_symmetries", "Completion.lagrangian"])
prop("C09", "All tree-level completions are found and nothing else",
     "The completions found for an operator are, as sets of couplings, exactly the ones given by opening the operator in every way at tree level with scalars and fermions: no inequivalent completion is missed and none is listed that no diagram produces.",
     "every effective operator",
     "tests pin the number of completions for a few operators, not which ones, and not for other contractions or field contents.",
     CP + [C + "topologies.py"], [("partitions / operator_completions / deriv_operator_completions / derivative_combinations", CP[0]), ("topology_data", C + "topology_data")],
     "runtime monitor: result compared with an independent enumerator of trees and index flows", "required/allowed sets (two exotics of equal quantum numbers at one vertex, and derivative couplings of two exotic fermions, are allowed but not required).",
     observe=["operator_completions", "deriv_operator_completions"])
prop("C10", "Results do not depend on history, hash seed or naming",
     "Calling any public function leaves its arguments and the shared field and operator definitions unchanged, and what it returns has the same physical content whatever the hash seed, whatever was called before (including what callers did to earlier results), how often it is called, and however the factors of an operator are ordered or its dummy indices named.",
     "every sequence of public calls, every hash seed, every spelling of an operator",
     "each test runs one call in a fresh order; shared mutable fields, caches and set orders only matter across calls and processes.",
     [T + "core.py", T + "lagrangian.py", T + "contract.py"] + CP + [C + "topologies.py"], [("npoint_fieldstrings, generate_full", T + "lagrangian.py"), ("operator_completions, clean/collect/filter_completions", CP[0])],
     "replica monitor: the same workload in processes with different hash seeds, orders, preludes and repetitions; offline comparison of the recorded results and of digests of shared state", "A fixed-plus-random workload of about forty calls per replica.",
     observe=["return values of public calls", "sm fields, EFF_OPERATORS, DERIV_EFF_OPERATORS before/after"])
prop("C11", "Grouping, cleaning, filtering and comparing completions is faithful",
     "Cleaning or de-duplicating a list of completions keeps one of each set of completions with the same couplings and drops nothing else; collecting partitions the list by field content; two completions whose couplings and mass terms differ are never called equivalent and relabelled copies always are; filtering by a sieve removes exactly the completions whose field content contains that of a completion in the sieve. None of them changes its input.",
     "every list of completions, in every order and with any repetition",
     "tests use one operator at a time, in the order the finder happens to return.",
     CP, [("clean_completions / collect_completions / collect_models / filter_completions / are_equivalent_completions / slow_remove_equivalent_completions", CP[0]), ("Completion.exotic_info, Model", CP[1])],
     "runtime monitor: results compared with label-free signatures of the couplings computed by the harness", "Shuffled and duplicated lists of completions of one or two operators, synthetic sieves.",
     observe=["clean_completions", "collect_completions", "filter_completions", "are_equivalent_completions"])
prop("C12", "Derivatives act in all inequivalent ways and operators are dispatched correctly",
     "Letting derivatives act on an operator yields exactly the inequivalent non-vanishing placements (with the right Lorentz contraction, no placement missing, repeated or invented), stripping derivatives returns the original fields and structure, and asking for the completions of an operator gives the same completions whichever entry point is used.",
     "every operator with up to one derivative per field",
     "tests look at single operators; symmetry between identical fields decides which placements vanish or coincide.",
     CP + [T + "core.py"], [("derivative_combinations / deriv_operator_completions / completions", CP[0]), ("D, strip_derivs", T + "core.py")],
     "runtime monitor: placements enumerated independently and compared in canonical form", "Catalogue and random operators of 3-6 fields, one to three derivatives.",
     observe=["derivative_combinations", "Operator with strip_derivs", "completions"])
prop("C13", "Exotic fields are self-consistent",
     "Every exotic field has the kind its quantum numbers dictate (real or complex scalar, Majorana or vector-like Dirac fermion); conjugation and partner are involutive, commute and flip exactly the charges, irreps and labels they should; lowering isospin indices yields one epsilon per lowered index; the mass term is an invariant non-vanishing bilinear of the right dimension; and copies (shallow or deep) of fields, operators and completions are equal and independent.",
     "every colour/isospin irrep, charges, spin and conjugation",
     "tests build a handful of fields.",
     CP + [T + "core.py"], [("FieldType subclasses, cons_completion_field, mass_term", CP[1]), ("Field / IndexedField", T + "core.py")],
     "runtime monitor: algebraic laws checked on random fields, tensors read back and evaluated in components", "Isospin up to quintets, colour digits up to two.",
     observe=["ComplexScalar/RealScalar/MajoranaFermion/VectorLikeDiracFermion", "cons_completion_field", "mass_term", "exotic_info"])
prop("C14", "The full Lagrangian contains every allowed renormalisable coupling",
     "The full Lagrangian built from a set of exotic fields contains, for each field content of dimension at most four with at least one exotic, exactly the gauge- and Lorentz-invariant terms: each listed term is allowed and non-vanishing, each allowed content appears with all independent contractions and none twice, together with one mass term per exotic.",
     "every set of exotic fields",
     "tests count terms of two models.",
     [T + "lagrangian.py", T + "contract.py"], [("Lagrangian.generate_full / npoint_fieldstrings / npoint_terms", T + "lagrangian.py"), ("invariants", T + "contract.py")],
     "runtime monitor: every field content decided independently by characters and the returned terms' rank computed in components", "Models with one exotic and one with two (more in the thorough tier); colour four-point terms only for presence.",
     observe=["Lagrangian.generate_full", "npoint_terms"])
prop("C15", "Exported completions come back unchanged",
     "A completion written out (one line of text, full or lazy, or JSON) and read back has the same couplings, fields (with their kind, charges and bars), diagram, partition, topology and operator, the summary in the lazy line agrees with the completion, and exporting what was read gives the same again.",
     "every completion of every operator",
     "the repository's export tests cannot run from a clean checkout; round trips depend on kinds of fields that only some completions have.",
     [D + "export.py", D + "utils.py", D + "database.py"] + CP, [("export_completion / export_completion_lazy / proc_*", D + "export.py"), ("LazyCompletion, read_completions", D + "database.py")],
     "round-trip monitor comparing every attribute of the original and the re-read object", "About two hundred completions per run including derivative operators.",
     observe=["export_completion", "export_completion_lazy", "LazyCompletion.force", "read_completions"])
prop("C16", "Filtering the model database keeps exactly the leading models",
     "A database read from files contains every stored model once under its operator; removing equivalent models keeps one model per operator and content; processing keeps exactly the models whose content (fields or couplings, up to conjugation) does not contain that of a model of an operator with a larger neutrino-mass scale (or lower dimension), in order of scale (or dimension); queries select exactly the matching models; forcing keeps all models.",
     "every set of models, distribution over files, philosophy and criterion",
     "the repository's database tests need a file that is not shipped.",
     [D + "database.py", "neutrinomass/utils/functions.py"], [("ModelDatabase, LazyCompletion, read_completions", D + "database.py"), ("remove_equivalent_nopop, conjugate_field, conjugate_term", "neutrinomass/utils/functions.py")],
     "runtime monitor: database state before/after each step compared with set inclusion computed by the harness", "About eighty random databases (4-8 operators, 3-14 models each) and two of exported completions per run.",
     observe=["ModelDatabase", "LazyCompletion.contains_field/contains_interaction"])
prop("C17", "Model tables number, relate and restore models correctly",
     "In the shipped exotic and coupling tables every entry and its conjugate share one prime that nothing else has, the inverse table agrees, and every coupling is hypercharge- and baryon-number-neutral, a gauge singlet and renormalisable; in any model table, the related models of a model are exactly the other models whose fields (two or more) are among its own, and the stored completion evaluates to that model; the script that writes the tables writes each model once with its own numbers, scale, loops and counts, and keeps exactly the leading models.",
     "every entry of the shipped tables; every model table and sub-table",
     "nothing is tested; the shipped tables have 7897 entries.",
     [D + "database.py", D + "pickler", D + "exotics.p", D + "terms.p", D + "utils.py"], [("ModelDataFrame.new / completion / related_models", D + "database.py"), ("data_dict, one_loop_democratic_nums", D + "pickler")],
     "runtime monitor: exhaustive audit of the shipped tables by characters; tables built at run time compared with set inclusion", "Exhaustive over shipped data; one recorded known finding (522 stale couplings).",
     observe=["EXOTICS, TERMS, MVDF", "ModelDataFrame", "pickler output files"])
prop("C18", "Closing operators conserves charges and yields consistent estimates",
     "Writing an operator in components gives exactly the combinations its isospin contractions allow; every closure rule and every closure conserves electric charge, baryon number, lepton number and the parity of chirality flips, runs to completion, and a fully closed diagram has one pair of neutrinos and an even number of vevs; the estimate contains exactly its couplings, loops and v²/Λ; none of this depends on how the operator is written.",
     "every |ΔL|=2 operator with up to four isospin contractions",
     "tests compare leading estimates of about fifty operators with the literature.",
     [D + "closures.py"], [("RULES / apply_rules / fixed_point", D + "closures.py"), ("parse_operator / neutrino_mass_estimate", D + "closures.py")],
     "runtime monitor: conservation laws checked between every component and its closure; estimate recomputed from the closure's constants", "All 243 catalogue operators, random operators, random spellings.",
     observe=["parse_operator", "fixed_point", "neutrino_mass_estimate", "RULES"])
prop("C19", "New-physics scales solve the neutrino-mass equation",
     "The scale returned for an estimate is the positive Λ at which the estimate equals the neutrino mass, the mass returned is the estimate at Λ = 1 TeV, the leading estimate of an operator is its largest one, and the loop counts are the exponents of the loop factors (each v²-dependent loop counting as zero or one).",
     "every product of couplings, loops and v²/Λ that closures produce",
     "tests check a handful of numbers; the equation has several roots, of which one is physical.",
     [D + "closures.py", D + "utils.py"], [("numerical_np_scale_estimate / numerical_mv", D + "closures.py"), ("get_leading_mv / estimate_np_scale / loop_data / table_data", D + "utils.py")],
     "runtime monitor: every returned scale is substituted back; masses and exponents recomputed", "All catalogue estimates (with several v²-dependent loops: a sample in the quick tier) and random ones.",
     observe=["numerical_np_scale_estimate", "numerical_mv", "get_leading_mv", "loop_data", "table_data"])
prop("C20", "Hilbert series count the operators they list, and reading them gives all derivative placements",
     "The shipped Hilbert series (dimension 6, and |ΔL|=2 at dimensions 7, 9, 11) list every field content with operators of that kind and the right number of independent operators for every number of flavours; parse() turns each term into exactly the placements of its derivatives on its fields in the allowed Lorentz irreps; the named derivative operators are the longest lists of invariants; and every operator's literature classification is that of its field content, whatever the order.",
     "every term of the series, every random product of fields and derivatives, every catalogue operator",
     "no test looks at a coefficient; the counts hold for symbolic flavour number and need group theory to confirm.",
     [T + "hs.py", T + "parse_hs.py", T + "deriv_operators.py", T + "lnv.py"],
     [("H6 / H7_LNV / H9_LNV / H11_LNV", T + "hs.py"), ("parse / distribute_derivatives / deriv_possibilities", T + "parse_hs.py"), ("longest_deriv_invariants / label_operators / deriv_operator_names", T + "deriv_operators.py"), ("BL_LIST", T + "lnv.py"), ("Operator.BL_classification", T + "core.py")],
     "runtime monitor: each term read from the running module is recounted with own characters (plethysm with derivatives, equations of motion and total derivatives removed), contents enumerated, parse output compared with an own placement",
     "All terms at 1-4 flavours; contents enumerated completely at dimensions 6, 7, 9, 11; random terms with up to four derivatives.",
     observe=["parse", "distribute_derivatives", "deriv_possibilities", "longest_deriv_invariants", "BL_classification"])
prop("C21", "The LaTeX form of an operator denotes that operator, and the operator table shows each operator with its own data",
     "Reading the LaTeX of an operator back gives the same fields, derivatives and contractions: the same letter at exactly the contracted indices of every kind printed, whatever the names of fields and indices, the index kinds left out and the conjugations; the paper's operator table has exactly one row for every operator of the catalogue that it lists, with that operator's isospin structure, number of filtered and unfiltered models, loops and scale, and blanks for operators without data.",
     "every operator (catalogue, couplings of completions, derivatives and their conjugates, random products) and every choice of ignored index kinds",
     "tests of printing compare nothing: the text only makes sense if every contraction can be read back.",
     [T + "core.py", D + "operators.py"],
     [("Operator.latex / Field.get_latex", T + "core.py"), ("print_paper_table", D + "operators.py"), ("eval_derivs", T + "core.py")],
     "runtime monitor: the printed LaTeX is parsed by an own reader and its contraction graph compared (graph isomorphism) with that of the tensor; table rows compared with the catalogue operator of their label",
     "About 2800 printed operators per run and all rows of the table.",
     observe=["Operator.latex", "Field.get_latex", "print_paper_table"])
prop("C22", "The topology tables list every tree topology once, with consistent partition, graph and catalogue type",
     "For each number of external scalars and fermions the shipped tables hold exactly the distinct tree diagrams with cubic or quartic scalar and Yukawa vertices, each once; every nested partition has the same structure and line types as the graph of the same number; grouping the external fields by a partition visits every distinct labelled diagram; each catalogue operator's kind is available, and kinds that are not available raise.",
     "every shipped topology (447) and every labelling of its external lines",
     "tests read one or two of the tables; a missing or duplicated diagram only shows as a model missing from a completion.",
     ["neutrinomass/completions/topologies.py", "neutrinomass/completions/topology_data", "neutrinomass/completions/completions.py"],
     [("get_topology_data / Leaf", "neutrinomass/completions/topologies.py"), ("partitions / replace", "neutrinomass/completions/completions.py"), ("partition and graph tables", "neutrinomass/completions/topology_data")],
     "runtime monitor: everything the running loader returns is compared with an own enumeration of typed trees (exhaustive over the shipped kinds)",
     "Exhaustive over the 14 shipped kinds.",
     observe=["get_topology_data", "partitions"])
prop("C23", "Mixing matrices are unitary, follow the standard parametrisation and reproduce measured mixing",
     "A mixing matrix built from sines, cosines, a Dirac phase and two Majorana phases has the entries of the standard parametrisation, is unitary, and its conjugate transpose and columns are consistent, numerically and symbolically; the shipped CKM and PMNS matrices agree with the measured moduli, phases and Jarlskog invariant, and the masses and constants with measurement.",
     "every set of angles and phases",
     "no test looks at the mixing matrices.",
     ["neutrinomass/analysis/utils.py"],
     [("UnitaryMatrix / get_cols / get_dagger / PMNS / CKM", "neutrinomass/analysis/utils.py")],
     "runtime monitor: random parameters; every entry compared with an own implementation of the parametrisation; M M† = 1; shipped matrices against measured ranges",
     "Four hundred numeric and 24 symbolic parameter sets per run, all shipped constants.",
     observe=["UnitaryMatrix", "PMNS, CKM"])
prop("C24", "De-duplication, pattern matching and field-name helpers keep their contracts",
     "Removing equivalent elements keeps the first of each class in order, in place or not; a pattern matches exactly the nested data of the same shape with equal leaves; conjugating the name of a field or coupling twice gives it back and flips exactly the conjugation and charges; folding, chunking, listing subsets, replacing words and counting factors give what their definitions say on every input.",
     "every list, relation, pattern, field name and word",
     "the helpers are used everywhere but have one or two examples each; several were broken on inputs no test reached.",
     ["neutrinomass/utils/functions.py", "neutrinomass/completions/utils.py", "neutrinomass/utils/match.py", T + "utils.py"],
     [("remove_equivalent / conjugate_field / conjugate_term / stringify_qns", "neutrinomass/utils/functions.py"), ("foldr / flatten / chunks / factors / multiset_equality", "neutrinomass/completions/utils.py"), ("multiple_replace / allowed_lor_dyn", "neutrinomass/tensormethod/utils.py")],
     "runtime monitor: random calls judged by direct definitions", "About 2400 calls per run, malformed and empty inputs included.",
     observe=["remove_equivalent", "pattern_match", "conjugate_field/term", "foldr, chunks, flatten, subsets"])
