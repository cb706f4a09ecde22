ENGINE = ("static analysis: trace-partitioned abstract interpretation of the SSA form (value-numbering terms, "
          "difference-bound zones for versions and indices, arbitrary-iteration loop summaries); no code is run")
NA = []
PROPS = []

def P(**k):
    PROPS.append(k)

P(id="T01", title="Only values that pass every lineage check are bound",
  statement="Binding returns a lineage only if the input value exists, declares a concrete name and concrete schemas, is unified with thema's own #Lineage definition, and both the input and that unification contain no CUE errors; the lineage returned is built from exactly that input. Every other input yields no lineage and a non-nil error of the class that names the defect (missing value, not a lineage, invalid lineage), never a panic over what the input is made of. No other operation creates or alters a lineage.",
  over=["inputs", "programs"], forall="every CUE value, runtime and set of bind options",
  why="tests bind a few dozen fixture lineages; they cannot show that no other input slips through a path that omits a check",
  files=["lineage.go", "bind.go"], state=[("lineage", "the bound lineage object and its schemas")],
  mech=[("bind gate", "BindLineage and the checks it calls")], observe=["result and error of BindLineage"],
  rule="For every path through BindLineage (callees in the module analysed in place) that returns a lineage: the path condition contains Exists(input), Exists and IsConcrete of name and schemas, Validate(Final) of the unification, Validate(Concrete(false)) of input and unification; the value kept is #Lineage & input, or the input itself only where a conjunct is known to be thema's own #Lineage; name, runtime and back references are those of the input. Error paths return nil and a marked, non-nil error. Lineage fields are stored nowhere else in the module.",
  note="all paths of the binder, for all inputs; what CUE's Validate, Unify and Exists decide is taken as given", min=300)

P(id="T02", title="Schema versions of a bound lineage start at 0.0 and have no gaps",
  statement="In every lineage that binds, the first schema has version 0.0 and each further schema's version directly follows that of its predecessor: same major and minor plus one, or major plus one and minor zero. Schemas whose versions do follow each other are never rejected for their order.",
  over=["inputs"], forall="every list of schema versions, of any length",
  why="a test fixes one list of versions; the guarantee is about all lists of all lengths",
  files=["bind.go", "lineage.go"], mech=[("version walk", "the schema loops of BindLineage")], observe=["result and error of BindLineage", "versions of the bound schemas"],
  rule="The version list of the returned lineage is the list of decoded versions of its schemas. Every success path left, through its header, a loop over the schemas whose every arbitrary iteration implies (zone domain) version = 0.0 for the first and version in {(M,m+1),(M+1,0)} of the predecessor for the others; every path that reports an order error contradicts that relation.",
  note="proved for an arbitrary iteration, so for lists of every length; version decoding itself is CUE's", min=80)

P(id="T03", title="Minor steps are backwards compatible, major steps are not",
  statement="A lineage binds only if each schema with a non-zero minor version accepts everything its predecessor accepts, and each schema that starts a new major version does not; a step that meets its rule is never rejected as (in)compatible. Only the explicit option to skip buggy checks, and never when verification is forced by the environment, lifts this; where it does, no step is rejected as (in)compatible.",
  over=["inputs", "configurations"], forall="every pair of adjacent schemas and every combination of bind options",
  why="tests sample a few compatible and incompatible pairs",
  files=["bind.go", "internal/compat/compat.go", "surface.go"], mech=[("compatibility check", "BindLineage's walk over adjacent schemas")], observe=["result and error of BindLineage"],
  rule="In every accepted iteration that is not the first and not skipped, the path condition decides newer.Subsume(older, Raw, All) on the closed schema definitions and relates it to minor==0 as required; every rejection contradicts the table; the skip flag is set only by its option, only when verification is not forced.",
  note="the subsumption answer is CUE's; direction, operands, options and the use of the answer are decided for every pair", min=80)

P(id="T04", title="Go lenses: exactly the required set, each kept under its own versions",
  statement="When lenses are given as Go functions, a lineage binds only if there is exactly one non-nil backward lens for every pair of adjacent versions and exactly one forward lens for every pair that crosses a major version, and no others. A missing or a superfluous lens is reported as such, a complete set is never rejected, and translation later finds each lens under the versions it was declared for.",
  over=["inputs", "configurations"], forall="every lineage and every list of Go lenses",
  why="tests try a handful of lens sets for short lineages",
  files=["bind.go", "lineage.go"], mech=[("lens completeness", "the Go lens checks of BindLineage")], observe=["result and error of BindLineage"],
  rule="On every success path with Go lenses: a loop registers each lens under (from,to) after refusing duplicates and nil functions; a loop over the adjacent pairs accounts for (later,earlier) always and (earlier,later) iff the majors differ, each either found and removed or recorded as missing; nothing is missing, nothing is left over; the lens map gets every lens under its own pair. Lens errors carry their class and only arise from a defect.",
  note="arbitrary-iteration argument over lens list and schema list", min=80)

P(id="T05", title="CUE lenses must be declared in ascending version order",
  statement="A lineage whose lenses are written in CUE binds only if its lenses are sorted by target version and, for equal targets, by source version. Lenses in that order are never rejected as out of order, and a lens whose versions cannot be read is an error.",
  over=["inputs"], forall="every list of lenses, of any length",
  why="tests sample a few lens lists",
  files=["bind.go"], mech=[("lens order", "the CUE lens walk of BindLineage")], observe=["result and error of BindLineage"],
  rule="In an arbitrary iteration over the lenses, an accepted lens is (zone domain, all orderings of the four components) not smaller than the previous one in (to, from) order, previous being what every iteration leaves behind; an order error implies it is smaller; success without Go lenses implies that the walk was completed or that there are no lenses.",
  note="arbitrary-iteration argument; completeness of CUE lenses is not enforced at bind time and not claimed", min=60)

P(id="T06", title="Validate accepts exactly the instances of its schema",
  statement="Schema.Validate(data) returns an Instance and a nil error if and only if the schema's closed definition unified with data is concrete and free of errors; that Instance is valid, belongs to the schema that was asked and holds exactly the data given. Otherwise it returns a nil Instance and a non-nil, non-empty error that unwraps to ErrInvalidData and whose entries name the schema that was asked. It never panics, whatever the CUE error looks like. ValidateTyped gives the same verdict and wraps the same Instance with the typed schema it was called on.",
  over=["inputs"], forall="every schema of every bound lineage and every CUE value",
  why="the shape of CUE's errors (paths, positions, number of arguments) and the data are unbounded; tests sample some forty inputs",
  files=["schema.go", "validate.go"], mech=[("validation", "schemaDef.Validate and the error conversion in validate.go")], observe=["results of Validate and ValidateTyped"],
  rule="Every returning path of Validate (error conversion analysed in place) decided Validate(Concrete(true)) of def & data in its path condition; where nil, the result is a new Instance with raw=data, sch=receiver, valid=true; where not, nil and an error marked ErrInvalidData whose list is shown non-empty by a loop argument over cue/errors.Errors. Every index and slice expression on every path is in range (zone domain). Every Schema inside a reported error is the receiver.",
  note="all paths, arbitrary CUE errors and data; the CUE evaluator decides what unifies", min=200,
  assume=["cue/errors.Errors of a non-nil CUE error is not empty"])

P(id="T07", title="Every Instance holds data that its schema accepts",
  statement="Instances only come into being by validation against the schema they name, by hydrating or dehydrating an Instance (for the same schema), by the implicit step of an Instance to its schema's successor within a major version, or from the examples a schema declares. No operation alters an existing Instance. Methods of an Instance that was not obtained this way panic instead of answering, and Schema, Underlying and TypedSchema return the schema and the data the Instance was made with. Examples returns every declared example under its own name, as an Instance whose methods answer. BindInstanceType succeeds only for a typed schema that is derived from the instance's own schema.",
  over=["inputs", "histories"], forall="every sequence of operations on every Instance",
  why="the guarantee is about all call sequences and all places of the module that create Instances, also ones no test reaches",
  files=["instance.go", "schema.go", "lineage.go", "vmux/vmux.go"], state=[("Instance", "pair of schema and data with the mark that it was validated")],
  mech=[("creation sites", "all functions that allocate an Instance")], observe=["Instances returned by any exported function", "Instance.Schema", "Instance.Underlying", "Schema.Examples"],
  rule="Over all functions of the module from which an Instance allocation is reachable: the fields of every Instance object on every path are justified (validated: facts contain the successful validation of that data by that schema; derived: hydrated from an Instance with the same schema; minor step: schema is Successor of the old one with equal major; example of the receiver); no store reaches an Instance not allocated on the path; exported methods check validity before any result.",
  note="closed-world over the module; whether hydration keeps data valid is CUE's and not claimed", min=25)

P(id="T08", title="ValidateAny returns the oldest matching schema's instance",
  statement="Lineage.ValidateAny(data) returns the Instance produced by the oldest schema of the lineage that accepts the data, and nil exactly if no schema accepts it. It never panics for a bound lineage.",
  over=["inputs"], forall="every bound lineage and every CUE value",
  why="depends on which subset of an arbitrary number of schemas accepts the data",
  files=["lineage.go"], mech=[("scan", "lineage.ValidateAny")], observe=["result of ValidateAny"],
  rule="There is a loop whose round k, for arbitrary k, goes on only if schema k's Validate rejected the data; every path that returns an Instance returns that of the current round's schema with a nil error; nil is returned only if all positions were passed.",
  note="arbitrary-iteration argument, lists of every length", min=2)

P(id="T09", title="Translate yields a valid instance of the requested version or an error",
  statement="Instance.Translate(to), for lineages with CUE lenses, returns an Instance of exactly the schema at version to, accepted by that schema, whose data is the result that the runtime's #Translate computes for this instance, its own version, the requested version and its own lineage, together with the lacunas of that same translation, all of them in order. If the translation fails, its result is not concrete, or the target schema rejects it, no Instance is returned and the error is an ErrInvalidLens (ErrLensIncomplete, ErrLensResultIsInvalidData respectively). A version that is not in the lineage never yields an Instance. AsSuccessor and AsPredecessor translate to the neighbouring version, the former keeping the data within a major version, and fail with ErrVersionNotExist at the ends.",
  over=["inputs"], forall="every instance of every bound lineage and every target version",
  why="tests translate a few instances of small lineages and cannot show that no path swaps versions, skips validation or drops lacunas",
  files=["instance.go", "translation.go", "schema.go"], mech=[("translation", "Instance.Translate, applying #Translate of translate.cue")], observe=["results of Translate, AsSuccessor, AsPredecessor, AsList"],
  rule="On every success path without Go lenses the returned Instance is Validate's result for the schema Lineage.Schema(to) of the instance's lineage, on out.result.result of #Translate filled with inst, from, to and lin of the receiver (loops over argument maps resolved by content), after Err, concreteness and decoding of out.lacunas were checked; failing paths return nil and an error with the mark of the check that failed; panics only where the receiver, the version or the CUE library is invalid. AsList appends every lacuna once in order.",
  note="the Go side of translation for all inputs; what #Translate computes is covered by the CUE-side property", min=8)

P(id="T10", title="Translation by Go lenses applies each step's lens once, in order",
  statement="For lineages bound with Go lenses, Translate(to) moves the instance one adjacent version at a time from its own version to exactly to, never past it and never in the wrong direction. Each step backward and each step across a major version applies the lens registered for that pair of versions to the instance produced so far, with the schema stepped to; each step forward within a major version keeps the data and goes to the successor schema. The instance returned has the requested version; a lens that fails, or returns an instance of another version, makes Translate fail with an ErrInvalidLens and no instance. The lacunas are empty.",
  over=["inputs", "histories"], forall="every lineage with Go lenses, every instance, every target version and every behaviour of the lenses",
  why="the number of steps and the behaviour of user-written lenses are unbounded",
  files=["instance.go", "lineage.go"], mech=[("lens walk", "the Go lens loop of Translate")], observe=["result of Translate and the lenses called"],
  rule="The walk is a loop that carries schema and instance; for an arbitrary round: the schema goes to its Successor or Predecessor according to the direction (zone domain on versions), the lens looked up is the one keyed by the two versions and applied to the carried instance and that schema, or (forward, same major) the step is AsSuccessor of the carried instance; the new instance's version is compared with the schema's. The loop ends exactly when the version is to; errors carry ErrInvalidLens.",
  note="arbitrary-iteration argument; lenses are arbitrary functions", min=6)

P(id="T12", title="Schema navigation follows the version order",
  statement="For every schema of every bound lineage: Successor returns the schema at the next version and nil exactly for the last schema; Predecessor returns the one before and nil exactly for 0.0; LatestInMajor returns the schema with the largest minor version of the receiver's own major version (the receiver itself if it is that one); First, Latest and All return the 0.0 schema, the newest schema, and all schemas in version order. Lineage.Schema(v) returns the schema whose version is v, or fails with ErrVersionNotExist exactly if there is none; SchemaP and LatestVersionInSequence agree with it. A missing schema is a nil interface, and the accessors of schemas and lineages return their own version, lineage, name and values.",
  over=["inputs"], forall="every bound lineage (any number of majors and minors) and every position in it",
  why="tests navigate a few small lineages; off-by-one errors at major boundaries and at the ends depend on the shape of the lineage",
  files=["schema.go", "lineage.go", "surface.go"], state=[("version list", "ordered list of schema versions of a lineage")],
  mech=[("binary search", "position of a version in the list")], observe=["results of Successor, Predecessor, LatestInMajor, First, Latest, All, Schema, SchemaP, LatestVersionInSequence"],
  rule="For every path through each navigation function: closing the path condition under the sequence facts of bound lineages (version k is that of schema k, strictly increasing, first 0.0; established by T02) and under the contract of sort.Search, the zone domain implies that the position of the returned schema is the required one and that nil is returned exactly at the end; scans are decided from their arbitrary iteration. Accessors return the carrying field on every path; typed wrappers only delegate.",
  note="all lineages and positions; relies on T01/T02 for the shape of bound lineages", min=20)

P(id="T13", title="Versions compare, print and parse consistently",
  statement="SyntacticVersion.Less is strict lexicographic order on (major, minor) for all versions; String prints both numbers in decimal separated by a dot; ParseSyntacticVersion accepts exactly two decimal numbers separated by one dot, returns those numbers in that order, and rejects every other text with ErrMalformedSyntacticVersion and without panicking, so that parsing what String printed gives the version back (numbers below 2^32); SV(a, b) is version a.b.",
  over=["inputs"], forall="every pair of versions and every string",
  why="tests compare and parse a handful of versions",
  files=["surface.go", "impl.go"], observe=["results of Less, String, SV and ParseSyntacticVersion"],
  rule="For every path through Less the zone domain excludes a result that differs from lexicographic order; the term returned by String is dec(major) . dec(minor); on every success path of ParseSyntacticVersion each component is ParseUint(part, 10, >=32 bits) of the matching part with a nil error and exactly two parts; every failing path contradicts one of those conditions and carries the sentinel.",
  note="all inputs; strconv and strings taken as documented", min=7)

P(id="T14", title="The runtime's lock is always released and guards CUE evaluation",
  statement="Every operation of thema that takes the runtime's lock has released it again when it returns or panics, whatever its input; it never takes the lock while it holds it, and never releases it without holding it. So no input leaves other users of the same runtime blocked. Binding a lineage evaluates CUE values only while it holds the lock exclusively; Validate and AssignableTo evaluate them only while they hold it at least shared, Translate fills the translation into CUE only under the exclusive lock, and NewT and Value decode under the shared one.",
  over=["inputs", "schedules"], forall="every exported operation, every path through it and every interleaving with other operations on the same runtime",
  why="a path that keeps the lock shows up only as a hang of a later operation, and an evaluation outside it only under an unlucky schedule",
  files=["runtime.go", "bind.go", "schema.go", "assignable.go", "instance.go", "lineage.go", "impl.go"], state=[("lock", "the reader/writer mutex of the Runtime")],
  mech=[("lock wrappers", "methods of Runtime that take and release the mutex")], observe=["operations on the same Runtime from other goroutines"],
  technique="static analysis: interprocedural typestate dataflow over the SSA form (lock state free/shared/exclusive, deferred calls, panics), context sensitive in the lock state, to a fixpoint; no code is run",
  rule="From every exported function and every function value that escapes, entered with the lock free: at each Lock/RLock the state is free, at each Unlock/RUnlock it is the matching one, and at each return and panic exit it is free (deferred calls applied). In the named operations every call of a method of cue.Value happens in at least the stated lock state.",
  note="all paths and call chains; the parts of hydration, typed decoding and translation that evaluate CUE outside the lock are outside the claim", min=40)

P(id="T17", title="Version multiplexers decode, validate, translate and return, in order",
  statement="A mux made for a schema decodes its input, validates it against the mux's own schema first, and otherwise against the other schemas of the lineage; it answers with the instance translated to exactly the version the mux was made for, with the lacunas of that translation. If decoding fails, or if no schema of the lineage accepts the data, the mux returns a non-nil error and no instance; if any schema accepts it, the data is not rejected for being invalid. Byte muxes encode the translated instance, value and typed muxes give the Go value of that very instance, and errors of any step are passed on. A mux does not panic on any input.",
  over=["inputs"], forall="every schema, decoder, encoder and input",
  why="tests feed a few documents of a few versions through muxes for one or two versions",
  files=["vmux/mux.go", "vmux/untyped.go", "vmux/typed.go", "vmux/byte.go", "vmux/value.go"], mech=[("mux functions", "function values returned by NewUntypedMux, NewTypedMux, NewByteMux, NewValueMux")],
  observe=["results of UntypedMux, TypedMux, ByteMux and ValueMux"],
  rule="The function value each constructor returns is analysed with the constructor's state. Every return decided the decoder's error; a success result is Translate(inst, version of the mux's schema) where inst is a nil-error result of Validate(decoded input) by a schema of the mux's lineage; the rejection path completed the search over all schemas; encoders, Value and BindInstanceType are applied to that translated instance; each error returned wraps the one of the failing step.",
  note="all inputs and lineages; relies on T06/T08/T10/T12 for Validate, typed instances, Translate and navigation", min=12)

P(id="T18", title="The JSON and YAML codecs decode and encode the format they name",
  statement="The JSON and YAML decoders parse their whole input in the format they are named after and return the CUE value it denotes, built in the context they are given; malformed input is an error. The encoders return the text of the given value in that format and report values that cannot be written. They do not panic.",
  over=["inputs"], forall="every input text and every CUE value",
  why="tests decode a few documents",
  files=["vmux/mux.go"], observe=["results of Decode and Encode of the codecs"],
  rule="Every path of the decoders ends with the error of CUE's extractor for the format, or with BuildExpr/BuildFile of its result in the given context; every path of the encoders returns the bytes and the error of the marshaller of that format applied to the given value.",
  note="what the CUE and JSON libraries parse and print is taken as given", min=4)

P(id="T15", title="IsAppendOnly accepts exactly the lineages that keep every old schema",
  statement="IsAppendOnly(old, new) returns nil if and only if new has at least as many schemas as old and every schema of old, without exception, is equal (each subsumes the other) to the schema at the same position of new. It does not panic.",
  over=["inputs"], forall="every pair of bound lineages, of any length",
  why="tests compare a few short lineages; a schema skipped at one end, or a comparison in one direction only, needs a particular history to show",
  files=["lineage.go", "internal/cuetil/equal.go"], observe=["result of IsAppendOnly"],
  rule="Every path returning nil implies len(old) <= len(new) and left, through its header, a loop that reached len(old) and whose every arbitrary iteration k decided Subsume(old[k], new[k], Raw) and Subsume(new[k], old[k], Raw) to be nil; every path returning an error implies len(new) < len(old) or a failed comparison at one position below len(old); index bounds are discharged in the zone domain.",
  note="all lineages; what subsumes what is CUE's answer", min=8)

P(id="T16", title="AssignableTo accepts exactly the Go types its rules allow",
  statement="AssignableTo(schema, T) compares the closed definition of the schema with the Go type at every level. It returns nil only if, at every level: the CUE kinds are equal (null aside) or the Go type is any; a basic Go type subsumes the schema's; every field of the schema, optional ones included, exists in the Go struct and is itself assignable, and the Go struct has no other field; lists are open or closed on both sides, have compatible lengths, one element type, and assignable elements; disjunctions of structs or of several list types, several basic kinds at once and null alone are only held by any. It reports an error, recorded under the full path of the offending value, only if one of these rules is broken. Non-struct types and pointers to pointers are refused, the latter with ErrPointerDepth. BindType returns a typed schema only for a type that AssignableTo accepts.",
  over=["inputs", "programs"], forall="every schema, every Go type and every depth of nesting",
  why="the pairs of schemas and Go types are unbounded and nested; tests list some sixty pairs",
  files=["assignable.go", "schema.go"], mech=[("recursive comparison", "the walk over schema and Go type below AssignableTo")], observe=["result of AssignableTo and BindType"],
  rule="One level of the recursive comparison, for arbitrary schema, Go type and path, with the recursive call as induction hypothesis (opaque, may add errors): every path without a recorded error implies the rule for its kind (facts on kinds, Subsume with cue.Schema(), openness, lengths; the field loop, the leftover loop and the element loop decided from an arbitrary iteration); every recorded error follows from a broken rule and carries the path; the result is nil iff no error is recorded. The comparison starts at the schema's closed definition, the encoded Go type and the root path.",
  note="structural induction over nesting depth; what subsumes what, and how Go types are encoded as CUE, is CUE's answer", min=300)

P(id="T19", title="Hydrate adds missing defaults, Dehydrate removes only defaults",
  statement="Hydrate and Dehydrate walk the instance's data along the closed definition of its own schema, at every level of structs and lists, and return a new Instance of the same schema and name, or, if the walk fails, the instance itself. Dehydrate leaves out a field if and only if its data equals the schema's default for it (each subsumes the other; the empty list that CUE takes for the default of an open list is none unless the schema spells it out) and otherwise keeps it, dehydrated; fields the schema does not name, values without default and every element of a list (in order) are kept. Hydrate keeps every field there is, hydrated; it fills each field that is missing and not optional with the schema's value, leaves missing optional fields out, and keeps every element of a list in order; other values are unified with the schema. List elements are walked with the first branch of the element type that they match; the walk fails only if CUE reports an error or an element matches no branch.",
  over=["inputs"], forall="every instance of every schema, every depth of nesting",
  why="schemas, defaults and data nest without bound; tests hydrate some thirty instances",
  files=["instance.go", "hydrate.go"], mech=[("recursive walk", "the walks over schema and data below Instance.Hydrate and Instance.Dehydrate")], observe=["results of Hydrate and Dehydrate"],
  rule="One level of each walk for arbitrary schema and data, recursive calls opaque (induction hypothesis): a return saying 'equals default' implies Default exists and both Subsume answers are nil; struct results are chains of loops over Fields(schema, Optional) and Fields(data) from an empty value whose every iteration fills exactly the recursive result, or skips for the stated reason; list results append exactly one element per iteration; hydration fills what is missing iff not optional; the caller starts from definition and raw data and builds the result Instance from the walk's value.",
  note="structural induction over nesting; data the schema accepts (no claim for data that is no list where the schema wants one); no claim that Hydrate undoes Dehydrate; what is a default and what subsumes is CUE's answer", min=60)

P(id="T25", title="The loader loads the given directory, all of its files and thema itself",
  statement="InstanceWithThema(modFS, dir) returns an instance only if cue.mod/module.cue of modFS was read and names the module, modFS does not bring its own copy of thema under cue.mod/pkg, and CUE loaded the instance without error. What is loaded is directory dir of that module (the root for \"\" and \".\"), as the package named after the directory (the last element of the module name for the root) unless the Package option says otherwise; all files of modFS (data files too) are visible with their exact content, and thema's embedded CUE files are visible where CUE looks for the dependency (or merged into the module if it is thema itself). Any failing step is an error and no instance; a file system without usable module file is reported as ErrFSNotACueModule, which wraps the cause; nothing else is refused. ToOverlay copies every file of a file system, unchanged, to its path under an absolute prefix or returns an error. AsModFS adds a module file exactly if there is none. The embedded file systems hold every CUE file of thema.",
  over=["inputs"], forall="every file system, directory and set of options",
  why="file systems and their failures are unbounded; tests load a few in-memory modules that never fail",
  files=["load/load.go", "internal/util/util.go", "embed.go", "runtime.go"], mech=[("overlay", "walk over a file system that fills a load.Config overlay")], observe=["results of InstanceWithThema, ToOverlay, AsModFS"],
  rule="Every success path of InstanceWithThema calls load.Instances(nil, cfg) where cfg's ModuleRoot, Module, Dir, Package and Overlay are the stated terms, the overlay having been filled from modFS and from thema's file system on the same path with a nil error; the callbacks given to fs.WalkDir are analysed in place: each nil return for a file has put exactly ReadAll(Open(path)) at prefix/path, having decided every error; every error return follows from a failed step; embed patterns are matched against the files in the tree.",
  note="all paths of the loader; CUE's own loading and the standard library's file walking are taken as given", min=40)

P(id="T20", title="Generators do not change what they are given",
  statement="Generating OpenAPI, JSON Schema, TypeScript, Go types or Go bindings, postprocessing a Go file, and rewriting a legacy lineage leave everything the caller passed in as it was: the configuration structs, the options inside them, their slices and maps, and the schema or lineage. They write no package variable either. So the same configuration can be used for any number of schemas, from any number of goroutines, and every call gives what it would have given first.",
  over=["inputs", "histories", "schedules"], forall="every configuration, schema and sequence of generator calls",
  why="a setting that leaks into the caller's configuration shows only in a later call with the same configuration, on another schema",
  files=["encoding/openapi/oapi.go", "encoding/jsonschema/jsonschema.go", "encoding/typescript/typescript.go", "encoding/gocode/openapi.go", "encoding/gocode/binding.go", "encoding/cue/rewrite.go"],
  mech=[("configurations", "the Config and TypeConfigOpenAPI structs of the generators")], observe=["the caller's configuration after a call", "results of a second call with it"],
  rule="On every path of every generator (callees of the same package and function values handed to others analysed in place), each store, map update, map deletion and append that may write in place goes to memory made during the call: its base, followed through fields, elements, slices, loop variables and appends, is not a parameter or a package variable. Functions of the module that are not analysed in place are summarised by the parameters they may write through.",
  note="all paths; writes by CUE, cuetsy and the other libraries to what they are handed are outside the claim", min=300)

P(id="T21", title="The OpenAPI document describes the schema and the part asked for",
  statement="openapi.GenerateSchema returns an OpenAPI 3.0.0 document whose info.version is the schema's version and whose components.schemas are exactly what CUE's generator gives, with all options the caller set, for: the schema's closed definition; with SplitSchema, the declared schema and the joined one, in this order; with Subpath, that path below them, refused if a selector of it is not allowed where the ones before it lead; with Group, every field of the schema, definitions and optional fields included, each under its own name without # and ?. The title and the name of the root are RootName if given, else the last selector of the Subpath, else the sanitised lineage name (always the latter for the title of a Group). Other definitions are named by the caller's NameFunc, if any, and else by their path below the schema and below the root. Generation is refused only if a step failed or the Subpath is absent, with no document, and it does not panic. A nil configuration means the same as an empty one.",
  over=["inputs", "configurations"], forall="every schema and every combination of options",
  why="options combine and schemas are unbounded; tests compare a few documents for a few combinations",
  files=["encoding/openapi/oapi.go"], mech=[("naming", "the NameFunc given to CUE's generator")], observe=["result and error of openapi.GenerateSchema", "what the jsonschema, gocode and CLI generators build on it"],
  rule="On every path returning a document, the returned syntax tree is read off the store: constants, title, version and the lists of schemas are the stated terms; every list of schemas is components.schemas of openapi.Generate of a value unified with a definition of the root's name for the stated part of the schema, with every field of the caller's options copied; group lists come from a completed loop over Fields(Definitions, Optional) whose every arbitrary iteration appends its field; subpaths passed a completed loop whose every iteration decided Allows of that selector on the value the earlier ones lead to; all step errors are known nil. The naming function is analysed with the state it captures. Refusals carry a failed step.",
  note="all paths and options; what CUE's OpenAPI encoder emits for a value is taken as given", min=30)

P(id="T22", title="Generated JSON Schema is draft 4 and accepts null where the schema does",
  statement="jsonschema.GenerateSchema rewrites the OpenAPI document of exactly the given schema, in every schema node at every depth: below properties, additionalProperties, items, oneOf, allOf, anyOf and not, and below nodes that are no schemas themselves. In each such node the keywords deprecated, discriminator, example, externalDocs, nullable, readOnly, writeOnly and xml are removed and no other field is; fields of the same names that are not keywords of a schema node, such as properties so named, stay. A node that was nullable: true accepts null afterwards: its type becomes [type, null], or, if it has no type or has an enum or a logical operator, it becomes anyOf of itself and null; a node that was not does not change in this respect. The outermost schema nodes, and only they, get $schema of draft 4. A type that is not known is an error; errors in nested nodes are reported, with no document; nothing panics.",
  over=["inputs"], forall="every schema, at every depth of nesting",
  why="schemas nest without bound and keywords combine freely; tests check that the documents of a few lineages are valid JSON Schema, not that they mean the same",
  files=["encoding/jsonschema/jschema.go"], mech=[("tree rewriting", "the function handed to ast.Walk and the one handed to astutil.Apply")], observe=["result and error of jsonschema.GenerateSchema"],
  rule="The function given to ast.Walk is analysed for an arbitrary node, once as outermost and once as nested walk (nested walks are calls, by induction over depth). Each way through it that reports no error has decided what the node is (struct, type, nullable) and: for a node that is no schema, changes nothing and lets the walk go on; for a schema, stops the walk, has walked every field that may hold schemas or knows it absent (the logical operators by a completed loop over all elements), has known-nil errors, applied the field function once before replacing the node's elements, which end up as stated for the facts of that path. The field function is analysed in the state it captures, per label. Functions that find fields by label are first decided themselves.",
  note="structural induction over the document; what CUE's OpenAPI encoder emits and how ast.Walk and astutil.Apply traverse is taken as given", min=500)

P(id="T23", title="Generated TypeScript is that of the schema and of the configuration given",
  statement="typescript.GenerateTypes generates from the closed definition of exactly the given schema: first all nodes cuetsy generates for its elements, with the caller's CuetsyConfig, unchanged, if there is one and else with everything exported. Unless Group is set, these are followed by the type of the root, named RootName if that is not empty and else the titlecased name of the lineage, as an alias type if RootAsType is set and as an interface otherwise, and then by the root's defaults exactly if it has any; with Group set there is no node for the root. If a step fails, the result is that error and no file; nothing else is refused. A nil configuration means the same as an empty one.",
  over=["inputs", "configurations"], forall="every schema and every combination of options, including no configuration at all",
  why="options combine and schemas are unbounded; tests compare the output of two configurations",
  files=["encoding/typescript/gen.go"], mech=[("assembly", "the list of nodes of the returned file")], observe=["result and error of typescript.GenerateTypes"],
  rule="On every path returning a file: its nodes are the concatenation GenerateAST(definition, options).Nodes, and, decided by the facts of that path on Group, GenerateSingleAST(name, definition, kind).T followed by .D iff it is known not nil; name, kind and options are the terms stated for the facts of that path on RootName, RootAsType and CuetsyConfig; the errors of all steps are known nil. Every path returning an error carries a failed step.",
  note="all paths and options; what cuetsy emits for a value is taken as given", min=10)

P(id="T24", title="Generated Go types are those of the schema and fully post-processed",
  statement="gocode.GenerateTypesOpenAPI generates the models of the OpenAPI document that openapi.GenerateSchema gives for exactly the given schema and the caller's openapi.Config: all models, none pruned, enum values prefixed, in package PackageName or, if that is empty, the lowercase lineage name. The file is then processed in this order: optional fields lose the pointer in front of lists and maps (with NoOptionalPointers, every field and no other); types that stand for unions (a struct of a single json.RawMessage that has methods) are removed with all functions, and every reference to them, in fields, lists, maps, aliases and nested structs at every depth, becomes any while all other types stay; underscores leave the names of types and all references to them at every depth; comments lose the Go-name prefixes unless UseGoDeclInComments is set; all of the caller's ApplyFuncs come last, in order. PostprocessGoFile parses its input with comments, applies all functions in order to the same file, and returns what goimports makes of the printed result; an import that goimports adds is an error unless IgnoreDiscoveredImports is set. A failing step is an error and no code; nothing else is refused. A nil configuration means the same as an empty one.",
  over=["inputs", "configurations"], forall="every schema and every combination of options; every Go type expression in the generated file, at every depth",
  why="generated type expressions nest without bound and options combine; tests compare the output of a few lineages and options",
  files=["encoding/gocode/gen.go", "encoding/gocode/decorators.go", "encoding/gocode/postprocessing.go"],
  mech=[("tree rewriting", "the functions applied to every node of the generated file"), ("type walkers", "the functions that visit every identifier of a type expression")],
  observe=["result and error of GenerateTypesOpenAPI and PostprocessGoFile", "whether the generated Go compiles"],
  rule="On every path returning code the pipeline is read off the result: Process(Fprint(file)), the file being that of the code generator for LoadFromData(Marshal(BuildFile(GenerateSchema(schema, config)))) with the stated options, all errors known nil. Each function applied is analysed for an arbitrary node and assigned what it takes care of; all four must be taken care of, the caller's functions follow. Functions that visit the identifiers of a type are decided first, by induction over the type (list, map, struct, pointer, identifier), each loop from an arbitrary iteration; functions handed to them rename exactly what is stated. The set of removed types is the intersection of two completed loops over all declarations.",
  note="all paths and options, structural induction over type expressions; what CUE's OpenAPI encoder, oapi-codegen, dst and goimports emit is taken as given", min=40)

P(id="T26", title="Generated Go bindings compile and bind the lineage they were made for",
  statement="For every configuration, gocode.GenerateLineageBinding generates Go code that compiles (given the functions it leaves to the user) and whose factory loads the CUE instance, fails with the error of loading, builds it in the context of the given runtime, looks up CuePath in it, and returns what BindLineage gives for that value, the given runtime and all of the given options. With an Assignee, the convergent factory returns the convergent lineage of BindType of the schema of TargetSchemaVersion, and of a fresh value of the assignee type, or the error of the step that failed. The package is PackageName or the lowercase lineage name; the factory is Lineage, with TitleName (or the titlecased lineage name) appended if FactoryNameSuffix is set, prefixed with do if PrivateFactory is set; the unconvergent factory below a convergent one is prefixed with base instead. Files are embedded exactly if EmbedPath is set, with that pattern, and exposed as the module CueModName exactly if that is set as well; the loader is generated exactly if LoadDir is set and loads that directory from those files. ApplyFuncs and IgnoreDiscoveredImports are passed on. Refusals carry a failed step. A nil configuration means the same as an empty one.",
  over=["inputs", "configurations", "programs"], forall="every lineage, every configuration, every runtime and every option given to the generated factory",
  why="the generated program is never compiled or run by the tests, and configurations combine",
  files=["encoding/gocode/gen.go", "encoding/gocode/binding.tmpl"], mech=[("template", "binding.tmpl and the variables it is executed with")], observe=["the generated Go file", "results of the generated factories"],
  rule="For every path of the generator the template's syntax tree is expanded with the values of that path, unknown strings standing for themselves as placeholders and conditions the path leaves open taken both ways. Each of the resulting Go files is type-checked against the module (with stubs for what the user supplies), translated to SSA and analysed like any other function: every path of the factories returns the stated composition with all step errors known nil, or the error of a failed step. Names, embed directives and the presence of functions are read off the generated syntax tree.",
  note="all paths of the generator and all expansions of its template; configured strings are assumed to be what their documentation says (identifiers, paths), quoting is decided for CuePath", min=100)

P(id="T27", title="thema data commands do what they say and exit 0 only if it worked",
  statement="The thema program exits with status 0 exactly if the command it ran reported no error. Each of `thema data validate`, `validate-any`, `translate`, `hydrate` and `dehydrate` works on the data decoded from exactly the input given (the one file named, or standard input if none is), as JSON or YAML if --format says so and as whichever of both it is otherwise; another format is an error. validate succeeds exactly if the schema of the version asked for (the latest if none is) accepts the data, and prints nothing. validate-any tries the version given first, if one is, and then all schemas, and prints the version of the one that accepted. translate finds the data's own schema among all of the lineage and prints one JSON document with from, to, result and lacunas of the translation to the version asked for. hydrate and dehydrate print the hydrated or dehydrated form of the data as an instance of the version given, or of whichever schema accepts it if none is. A failed read, decoding, validation, translation, marshalling or writing of a document is never followed by status 0, there is no failure without one of these causes, and with --quiet nothing is printed.",
  over=["inputs", "configurations"], forall="every lineage, every input, every combination of flags, every failure of a call",
  why="no test runs the commands; flags, input sources and failures combine",
  files=["cmd/thema/main.go", "cmd/thema/data.go", "cmd/thema/load.go"], mech=[("commands", "cobra commands, their hooks and the variables their flags are bound to")], observe=["exit status", "standard output"],
  rule="Package initialisation and main are interpreted abstractly, which gives the tree of commands, the variable each flag is bound to and the functions cobra calls, in order. These are then interpreted as one run with flags as unknown values. Every run ending in status 0 must have found every error nil, have decoded the input as stated and have written exactly the stated term; every run ending otherwise must have found an error or a stated cause.",
  note="all paths through the hooks of each command; what cobra, CUE's decoders and thema's own API (T01 to T24) do is taken as given", min=400)

P(id="T28", title="thema lineage gen, init and fix write what was made, where it belongs",
  statement="A run of `thema lineage gen jsonschema`, `openapi`, `gotypes` or `gobindings` that exits 0 wrote exactly the one result that the generator gave for the schema of the version asked for (the latest if none is; for gobindings, the lineage), with no option the flags did not ask for and every one they did. jsonschema and openapi print the document as JSON or YAML as --format says and refuse other formats. gotypes and gobindings print the code with --stdout, and otherwise write it to the file named after the lowercase lineage name with _types_gen.go or _bindings_gen.go in the directory the lineage is in, after a comment; --pkgname, --suffix, --private, --bind-type, --no-embed, --no-fs-func and the CUE path reach the generator unchanged, and without --stdout the embedded files and the module are those of the lineage given. `init empty`, `init openapi` and `init jsonschema` print the new lineage for the schema extracted from the document given, at the subpath asked for, with the name given and the package given (the name if none is, none with --no-package). `fix` writes the rewritten lineage at the path asked for to the file it came from. An error of any step, including writing the result, makes the command fail, a failing command has not written a result, and there is no failure without a cause.",
  over=["inputs", "configurations"], forall="every lineage, every input document, every combination of flags, every failure of a call",
  why="no test runs the commands; flags and failures combine",
  files=["cmd/thema/lineage_subgen.go", "cmd/thema/lineage_init.go", "cmd/thema/lineage_fix.go", "cmd/thema/lineage.go"], mech=[("commands", "cobra commands, their hooks and the variables their flags are bound to")], observe=["exit status", "standard output", "the files written"],
  rule="As T27: the tree of commands, flags and hooks is read off an abstract interpretation of initialisation and main, and each command interpreted as one run with flags as unknown values. Every run ending in status 0 must have found every error nil, have called the generator with the stated terms and a configuration whose fields are the stated terms of the flags, and have written its result to the stated place; every run ending otherwise must have found an error or a stated cause and have written no result.",
  note="all paths through the hooks of each command; what the generators (T21 to T26) give is taken as given, as are cobra and the file system", min=400)

P(id="T29", title="Commands load the lineage and schema their flags name",
  statement="A thema command that needs a lineage loads exactly the file or directory given by --lineage, in the CUE module it lies in (the nearest cue.mod above it) or, if there is none, in one made up for its directory, with thema's own CUE files available to it unless the module is thema itself. What is bound as the lineage is the value of the loaded instance at --path, or its root if none is given; if several packages were loaded exactly one of them may be a lineage, more are an error. `lineage fix`, which works on lineages in their legacy form, loads without binding. The schema the command works with is the one of the version given, which must parse and exist, or the latest if none is. Loading succeeds only if all of this did, and fails only if some of it did not. Every flag of a command has a variable of its own, flags that share a variable between commands have the same default, and every flag has an effect.",
  over=["inputs", "configurations"], forall="every file, directory, module and version given, every combination of flags",
  why="no test runs the commands or their loader",
  files=["cmd/thema/load.go", "cmd/thema/lineage.go", "cmd/thema/data.go", "cmd/thema/lineage_subgen.go"], mech=[("loading", "the function that loads a lineage for a command, and the flags it reads")], observe=["which lineage and schema the commands work with"],
  rule="The loader is interpreted for each command in the state its hooks call it in, flags being unknown values. On every path that succeeds, load.Instances was called once with the stated directory, file, module root and overlay, as terms of --lineage and of the cue.mod found; the schema is Latest of the lineage where the path knows the version to be empty and else Schema of the parsed version with nil errors. Every BindLineage call is of an instance loaded, at --path where the path knows one is given. Every value of type Lineage in the package comes from that call. The variables of the flags are compared across the tree of commands.",
  note="all paths of the loader for each command; what CUE loads for a directory is taken as given", min=400)

P(id="T30", title="Typed values are the data plus the schema's defaults, freshly decoded",
  statement="The value of a TypedInstance is its data together with the defaults of its schema, at every depth, decoded onto an empty Go value of the type: nothing of a default remains where the data says otherwise. If decoding fails, Value returns that error, and ValueP panics; otherwise ValueP returns what Value returns. TypedSchema is the typed schema the instance was made with. NewT decodes the schema's own definition onto a new value in each call, so that values never share anything. BindType accepts exactly the assignable types onto which the schema can be decoded without other errors than those about fields that have no concrete default; it leaves the caller's value alone, and the typed schema, its schema and its lineage refer to each other. ValidateTyped gives the instance Validate gives, with the typed schema, or Validate's error.",
  over=["inputs", "histories"], forall="every schema, Go type and instance",
  why="which defaults a type needs and what data replaces depends on the nesting of schema and data; tests decode a handful of flat structs",
  files=["instance.go", "schema.go"], mech=[("decoding", "TypedInstance.Value, the constructor BindType gives NewT")], observe=["results of Value, ValueP, NewT, BindType, ValidateTyped", "the value given to BindType"],
  rule="Every return of Value is what Decode left in a variable of the call that nothing else was stored in, the source being the unification of the schema's definition with the instance's data, and the error that very Decode's; ValueP returns Value's result where its error is nil and panics where it is not; NewT's constructor (found in what BindType stores) decodes the definition of the given schema onto a variable made in the same call; on every path of BindType that succeeds Decode was nil, or a loop over all of its errors kept each that is not about a value that is not concrete, and none was left; no Decode and no store goes to the caller's value.",
  note="all paths, for all types and instances; what CUE unifies and decodes is CUE's answer", min=8)

P(id="T31", title="Legacy lineages are rewritten with every schema and lens in place",
  statement="encoding/cue.RewriteLegacyLineage either returns an error or the file that declares the lineage found at the path, in which exactly the lineage's own `seqs` field is replaced by `schemas` and `lenses` (fields of the same name nested in other fields stay). It never panics. `schemas` holds the source of every schema of every sequence once, in order, each under the version made of the number of its sequence and its place in it. `lenses` holds, for every sequence but the first and in this order, the reverse lens from its first schema to the last schema of the previous sequence and the forward lens back, each with the `rel` and `lacunas` declared for its own direction (or a bottom to be implemented and no lacunas where none is declared); and for every other schema a lens to its predecessor, to be implemented. In what is carried over, every reference to `from` becomes `input` and every reference to `to` becomes `result`, however it is used, and nothing else changes. What cannot be carried over (a schema, mapping or lacunas that are no literals, a sequence without schemas, a lineage spread over several files) is an error.",
  over=["inputs"], forall="every package, every path, every number of sequences and of schemas in them",
  why="the tests rewrite lineages of at most three sequences, with one level of selection in their lenses",
  files=["encoding/cue/rewrite.go"], mech=[("rewriting", "the lists of schemas and lenses and the functions applied to the syntax tree")], observe=["the returned file and error"],
  rule="RewriteLegacyLineage is interpreted abstractly with all its helpers. On every path that returns no error, the two lists put in place of `seqs` are traced back, through loops that turn one list into another element by element, to the nested iteration over `seqs` and `schemas`; what an arbitrary round of either loop appends is compared, as a term, with what the statement says for that sequence and schema, the number of the previous sequence's last schema being the loop variable every round leaves at the count of its schemas. The functions given to astutil.Apply and ast.Walk are interpreted for an arbitrary node: which nodes are replaced, by what, and where the walk goes on. No path panics or asserts a type it has not checked.",
  note="all paths and arbitrary rounds of all loops; what CUE's parser, Source and astutil.Apply do is taken as given", min=20)


P(id="T32", title="The CUE definition of translation walks every version in between",
  statement="Translation as defined in CUE (#Translate, used by Instance.Translate for lenses written in CUE) takes one step for every schema of the lineage strictly after `from` up to `to`, in ascending order, if `to` is newer; one for every schema before `from` down to `to`, in descending order, if `to` is older; none if the versions are equal. Versions compare by major, then minor number, for every number of majors and of minors in each; the place of a version in the lineage is counted from the majors of the schemas before it. The first step gets the instance, each later one the result of the step before. A step back, and a step forward into a new major version, apply the lens declared from exactly the version reached so far to exactly the next one, with that input; a step forward within a major version only unifies with the next schema. Every result is combined with the schema it reached, and its version recorded. The result is that of the last step, or the instance if there is none. Lacunas whose condition holds (it does unless declared otherwise) are kept, all and in order, with source and target fields, message and the numeric id of their type (Placeholder 1, DroppedField 2, LossyFieldMapping 3, ChangedDefault 4), under the version the step reached; steps without lacunas are left out.",
  over=["inputs", "histories"], forall="every lineage, pair of versions and instance",
  why="the tests translate in lineages of at most a handful of versions; what goes wrong depends on the shape of the lineage",
  files=["translate.cue", "lineage.cue", "lacuna.cue"], mech=[("translation", "the CUE definitions #Translate, #Lens, #Lacuna and what they refer to in #Lineage")], observe=["#Translate.out", "Instance.Translate"],
  rule="The CUE files are parsed and each definition brought to a normal form by value numbering over its syntax tree: aliases, lets and hidden fields are replaced by what they stand for (also across files, so that indexes into a lineage become terms over its schemas and lenses alone), structs that are unified are merged, loops become iteration by index with linear bounds, the list that refers to its own elements becomes a recurrence, and conditions become tables over the signs of linear terms. Each field of the definition is then compared with the normal form of the specification, and a field that differs is reported with the place where it differs.",
  note="all lineages, versions and instances, by equality of normal forms; that versions of a lineage ascend without gaps is T01's, what CUE evaluates a definition to is CUE's answer", min=20)

P(id="T33", title="Lineage and schema definitions in CUE bind every schema to the join schema",
  statement="In the CUE definition of a lineage, every schema, the first and all others, is unified with the lineage's joinSchema, under the closed definition _#schema that everything else uses; examples are instances of that same schema; a lineage has a name, at least one schema and a list of lenses; the latest version is that of its last schema; versions are pairs of unsigned numbers, and a schema without one is version 0.0; a lens has from, to, input, result and lacunas. #SearchAndValidate gives, for the first schema in order that the data is an instance of, its version, the lineage and the data unified with that schema, and fails if there is none; #ValidFor gives that version.",
  over=["inputs"], forall="every lineage and all data",
  why="the definitions apply to every lineage; tests only unify a handful with them and never evaluate the search definitions",
  files=["lineage.cue", "traverse.cue"], mech=[("definitions", "the CUE definitions #Lineage, #SchemaDef, #SyntacticVersion, #SearchAndValidate, #ValidFor and #LinkedInstance")], observe=["lineages bound, schemas' Underlying, results of the CUE definitions"],
  rule="As T32: the definitions are brought to a normal form (references resolved by lexical scope, aliases, lets and hidden fields inlined, fields merged and ordered, loops by index, conditions as tables) and compared field by field with the normal form of the specification; a reference that resolves to another field than the one stated (for instance to the field being defined) gives another term.",
  note="all lineages and data, by equality of normal forms; what CUE evaluates a definition to is CUE's answer", min=15)


P(id="T38", title="A new lineage file has the given name, package, schema and its imports",
  statement="encoding/cue.NewLineage returns a CUE file that embeds thema.#Lineage (imported under its own name), has exactly the given name, the package clause of the given package name and none if that is empty, and one schema of version 0.0 and nothing else. That schema is the printed syntax of exactly the given value, with all its fields, definitions, attributes and comments; every import that syntax has, under the name it has there, is an import of the file too. Turning syntax into an expression (astutil.ToExpr) leaves expressions as they are and keeps all declarations of a file but its package clause and imports. Printing (astutil.FmtNode) gives the formatted text of the node given. A step that fails is an error and no file; nothing else is refused.",
  over=["inputs"], forall="every schema, name and package name; every list of declarations and imports",
  why="schemas and their imports are unbounded; tests make files of a few schemas without imports",
  files=["encoding/cue/encode.go", "internal/astutil/get.go"], mech=[("template", "the text of the file and the variables it is executed with"), ("syntax", "conversion of values to syntax, expressions and text")], observe=["result and error of encoding/cue.NewLineage", "output of thema lineage init"],
  rule="For every path returning a file, the template's syntax tree is expanded with the values of that path, unknown strings standing for themselves, conditions left open taken both ways and loops for none, one and two elements; each expansion is parsed as CUE and its declarations compared with the stated ones. The list the imports come from is decided by its loops: left only when all declarations (specs) were visited, one arbitrary iteration of each keeps what was found before and adds exactly the text of the import at hand, thema's own excepted. The functions from value to syntax, syntax to expression and node to text are decided on all their paths; errors of all steps are known nil on paths with a result, and every refusal carries a failed one.",
  note="all paths, all expansions of the template, loops by induction; what CUE's exporter, parser and formatter give is taken as given, names are assumed to be what #Lineage allows", min=20)

P(id="T39", title="Validation errors name the field, both sides and where each comes from",
  statement="The error of a failed Validate has exactly one entry, in order, for every error CUE reports that has one string value and a message containing \"incomplete\" (a missing field) or else \"not allowed\" (an excess field), two string values, or two string values and two kinds; CUE errors of other forms are entries (wrapping the CUE error) only if there are none of these. Its text is the text of all its entries. Each entry names the lineage and version of the schema that was asked and the CUE error's path without thema's own part (all up to the third element from the first \"schemas\" that has two after it, otherwise the first element). After the schema's side it lists every input position in a .cue file, after the data's side every other input position, each in order. Of two values the first is the data's exactly if there is more than one position and the first one is not in a .cue file. The schema's value is printed with each disjunct that is exactly the bounds of a number type, \"int\" before or after the bounds, replaced by that type's name (uint8 to uint64, int8 to int64; float32 and float64 by their bounds alone), the data's value next to the data's side.",
  over=["inputs"], forall="every schema and all data that it rejects; every list of CUE errors, positions, paths and values",
  why="the number and forms of CUE's errors, their positions and paths are unbounded; tests compare a few texts",
  files=["validate.go", "schema.go"], mech=[("sorting of CUE's errors", "loop over the parts of the error CUE gives")], observe=["text and structure of the error of Schema.Validate"],
  rule="One arbitrary iteration of the loop over the parts of CUE's error: from the facts of each path (number and kinds of the values, words of the message) the entry that has to be added is derived, and compared with the one that is: which field of an entry is what is read off the paths of its Error method (the literal text before each printed value), so that fields are compared by what they are printed as. The lists of positions are decided by one arbitrary iteration of the loop that splits them, the path by the loop that looks for thema's own part, the names of number types by evaluating the table's keys as intervals. The loops are left only when all elements were visited.",
  note="all paths, loops by induction; which errors, positions and values CUE gives is CUE's", min=20)

P(id="T40", title="Generated Go fields have the Go type of their schema, pointers if optional",
  statement="In the Go types gocode generates, the Go type for a schema is: for an integer the Go type its format names (int8 to int64, uint8 to uint64, int, uint) and int for any other format; for a number float64 with format double, float32 with format float or none, and an error for other formats; bool for a boolean, an error if it has a format; for a string string, or []byte (byte, binary), openapi_types.Email (email), openapi_types.Date (date), time.Time (date-time), json.RawMessage (json), openapi_types.UUID (uuid); for a list [] and the Go type of its elements, whose errors are passed on; an unknown type is an error. A field is a pointer to that type exactly if its schema is not excepted from optional pointers (SkipOptionalPointer), and it is not required, or nullable, or write-only, or read-only (unless it is required and DisableRequiredReadOnlyAsPointer is set).",
  over=["inputs", "configurations"], forall="every schema type, format and property",
  why="types, formats and attributes combine; tests compare the output of a few lineages",
  files=["internal/deepmap/oapi-codegen/pkg/codegen/schema.go"], mech=[("mapping of types", "from OpenAPI types and formats to Go types")], observe=["types of fields in the code gocode.GenerateTypesOpenAPI returns"],
  rule="Every path of the function that maps a schema to a Go type: from the facts about type and format on the path the Go type is derived and compared with the one that is stored (tables in the code are read and compared entry by entry); every path of the method that gives a field's type: the condition for a pointer is evaluated in three-valued logic on the path's facts and has to be decided, and to agree.",
  note="all paths; extensions (x-go-type and the like), which the documents of thema do not have, and unions are not part of it", min=30)

P(id="T34", title="Validation accepts exactly the data CUE's semantics admit",
  statement="For every schema and all data, Validate succeeds exactly if the data is an instance of the schema according to the CUE language specification.",
  over=["inputs"], forall="every schema and all data",
  why="the space of CUE schemas and data is unbounded",
  files=["schema.go"], mech=[("evaluator", "cuelang.org/go, not part of this repository")], observe=["result of Validate"],
  na="The decision is made by CUE's evaluator at run time, in a dependency; nothing in this repository's source decides it. T06 decides what is in reach: which values are handed to the evaluator and that its answer is passed on.")

P(id="T35", title="Lenses written by lineage authors preserve what both versions can express",
  statement="Translating an instance to another version and back gives the instance again, but for what lacunas declare as lost.",
  over=["inputs", "histories"], forall="every lineage and instance",
  why="the lenses are written by users",
  files=["translate.cue", "instance.go"], mech=[("lenses", "declared by the lineage's author in CUE or Go")], observe=["results of Translate"],
  na="The mapping is the content of lineages, which are inputs to this code and not part of it; no property of the source implies it.")

P(id="T36", title="Every operation ends, within bounds on time and memory",
  statement="Binding, validation, translation and generation end for every lineage and input.",
  over=["inputs"], forall="every lineage and input",
  why="no finite number of runs bounds all inputs",
  files=["bind.go", "instance.go"], mech=[("evaluator", "CUE's evaluation, and recursion over its values and syntax trees")], observe=["that calls return"],
  na="The loops and recursions of this repository follow the structure of CUE values and syntax trees whose finiteness and cost are the evaluator's; a bound on them is a run-time quantity.")

P(id="T37", title="No data race under any schedule",
  statement="No two concurrent uses of values of one runtime access the same memory without synchronisation.",
  over=["schedules"], forall="every schedule of concurrent calls",
  why="tests run few schedules",
  files=["runtime.go"], mech=[("lock", "the runtime's lock"), ("evaluator", "memory inside CUE's runtime")], observe=["absence of races"],
  na="Which memory evaluation writes is hidden in CUE's lazily evaluating runtime; nearly every read of a cue.Value may write, so a sound analysis of this source alone would reject all concurrent use. T14 decides the locking discipline that is in reach.")
