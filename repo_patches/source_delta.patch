From c6e59ded365bd5665341551c04b1defd5510a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:31 +0000
Subject: [PATCH 01/45] fix: LatestInMajor returns the last schema of its own
 major version

---
 schema.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..445134d 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,9 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	// The search finds the first schema of the next major version (or the end of
+	// the list), so the latest schema in this major is the one just before it.
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 8328a80a7e65af0f226538e5ddd5b9d8efb0faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:02 +0000
Subject: [PATCH 02/45] fix: count schemas per major version correctly beyond
 three majors

---
 lineage.cue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..f0b52c2 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,14 +123,14 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - idx
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
 		//
 		//		let pos = [0, for i, sch in SS[1:] if SS[i].version[0] < sch.version[0] { i+1 }]
 		//		_counts: [for i, idx in pos[:len(pos)-1] {
-		//			pos[i+1]-list.Sum(pos[:i+1])
+		//			pos[i+1]-idx
 		//		}, len(SS)-pos[len(pos)-1]]
 		//
 		// causes the following cue internals panic:
-- 
2.43.0


From 35ec901f4c6348d204e7f24c33068955e53ff518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:27 +0000
Subject: [PATCH 03/45] fix: reject lineages whose schema versions do not start
 at 0.0 or are not contiguous

---
 bind.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..73183b6 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,26 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkVersionsContiguous()
+}
+
+// A version number identifies the position of a schema within its lineage, so the
+// first one must be 0.0, and each of the others must directly follow its predecessor.
+func (ml *maybeLineage) checkVersionsContiguous() error {
+	for i, sch := range ml.schlist {
+		if i == 0 {
+			if sch.v != synv() {
+				return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "first schema in lineage must be version %s, got %s", synv(), sch.v), terrors.ErrInvalidSchemasOrder)
+			}
+			continue
+		}
+
+		prev := ml.allv[i-1]
+		if sch.v != synv(prev[0], prev[1]+1) && sch.v != synv(prev[0]+1, 0) {
+			return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "schema version %s does not directly follow previous schema version %s", sch.v, prev), terrors.ErrInvalidSchemasOrder)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 6c89286d72f354a6b9ee0b90fb1cfa5b6befe286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:42 +0000
Subject: [PATCH 04/45] fix: return an error from AsSuccessor and AsPredecessor
 at the ends of a lineage

---
 instance.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..2de28b1 100644
--- a/instance.go
+++ b/instance.go
@@ -103,20 +103,27 @@ func (i *Instance) AsSuccessor() (*Instance, TranslationLacunas, error) {
 	// If it's a minor version upgrade, we can safely shortcut and just create
 	// a new instance
 	nsch := i.Schema().Successor()
+	if nsch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema version %s has no successor in lineage %s", i.Schema().Version(), i.Schema().Lineage().Name()), terrors.ErrVersionNotExist)
+	}
 	if nsch.Version()[0] == i.Schema().Version()[0] {
 		ni := new(Instance)
 		*ni = *i
 		ni.sch = nsch
 		return ni, nil, nil
 	}
-	return i.Translate(i.sch.Successor().Version())
+	return i.Translate(nsch.Version())
 }
 
 // AsPredecessor translates the instance into the form specified by the predecessor
 // schema.
 func (i *Instance) AsPredecessor() (*Instance, TranslationLacunas, error) {
 	i.check()
-	return i.Translate(i.sch.Predecessor().Version())
+	psch := i.Schema().Predecessor()
+	if psch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema version %s has no predecessor in lineage %s", i.Schema().Version(), i.Schema().Lineage().Name()), terrors.ErrVersionNotExist)
+	}
+	return i.Translate(psch.Version())
 }
 
 // Underlying returns the cue.Value representing the data contained in the Instance.
-- 
2.43.0


From dc7c381413e4ca8ab8a763907e4548a2eaa6ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:57 +0000
Subject: [PATCH 05/45] fix: hydrate and dehydrate against the schema itself,
 not its whole #SchemaDef

---
 instance.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index 2de28b1..e3ea226 100644
--- a/instance.go
+++ b/instance.go
@@ -59,8 +59,7 @@ func (i *Instance) check() {
 func (i *Instance) Hydrate() *Instance {
 	i.check()
 
-	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +81,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 3e2f74a9142a5c2f045d4369c14bacf200d58a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 06/45] fix: check the target version before running Go lenses

---
 instance.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instance.go b/instance.go
index e3ea226..04642a5 100644
--- a/instance.go
+++ b/instance.go
@@ -213,16 +213,16 @@ func (inst *TypedInstance[T]) ValueP() T {
 func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
 	i.check()
 
-	if len(i.Schema().Lineage().(*baseLineage).lensmap) > 0 {
-		return i.translateGo(to)
-	}
-
 	// TODO define this in terms of AsSuccessor and AsPredecessor, rather than those in terms of this.
 	newsch, err := i.Schema().Lineage().Schema(to)
 	if err != nil {
 		panic(fmt.Sprintf("no schema in lineage with version %v, cannot translate", to))
 	}
 
+	if len(i.Schema().Lineage().(*baseLineage).lensmap) > 0 {
+		return i.translateGo(to)
+	}
+
 	out, err := cueArgs{
 		"inst": i.raw,
 		"to":   to,
-- 
2.43.0


From 9b5a0f1bdaa1429f90aa5c0ca1d361006221314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:45 +0000
Subject: [PATCH 07/45] fix: mark every translation failure as ErrInvalidLens,
 as documented

---
 instance.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/instance.go b/instance.go
index 04642a5..56451dc 100644
--- a/instance.go
+++ b/instance.go
@@ -248,13 +248,13 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, nil, errors.Mark(errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete), terrors.ErrInvalidLens)
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, errors.Mark(errors.Mark(err, terrors.ErrLensResultIsInvalidData), terrors.ErrInvalidLens)
 	}
 	return inst, lac, err
 }
@@ -285,16 +285,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, errors.Mark(fmt.Errorf("error executing %s migration: %w", mlid, err), terrors.ErrInvalidLens)
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
-- 
2.43.0


From f682719a0cecdc8f4cac35273edf173f97e9530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 08/45] fix: report the lacunas emitted by CUE lenses

---
 translate.cue | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/translate.cue b/translate.cue
index c92e5e3..75e0bb0 100644
--- a/translate.cue
+++ b/translate.cue
@@ -40,6 +40,17 @@ import "list"
 			to:     TV
 			result: *steps[len(steps)-1].result | I
 		}
+		// all lacunas emitted during translation, grouped by the version reached by the
+		// step that emitted them
+		lacunas: [ for step in steps if len(step.lacunas) > 0 {
+			v: step.to
+			lacunas: [ for lac in step.lacunas {
+				sourceFields: lac.sourceFields
+				targetFields: lac.targetFields
+				message:      lac.message
+				type:         lac.type.id
+			}]
+		}]
 	}
 	out: {
 		steps: [
@@ -72,7 +83,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +126,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From 3505554a1ffcac5218199f3b2a396f5fb2e02057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:05 +0000
Subject: [PATCH 09/45] fix: do not drop errors decoding translation lacunas

---
 instance.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index 56451dc..fb6c42b 100644
--- a/instance.go
+++ b/instance.go
@@ -239,7 +239,9 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	}
 
 	lac := make(multiTranslationLacunas, 0)
-	out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac)
+	if err := out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac); err != nil {
+		return nil, nil, errors.Mark(fmt.Errorf("lens produced invalid lacunas: %s", cerrors.Details(err, nil)), terrors.ErrInvalidLens)
+	}
 
 	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
 	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
-- 
2.43.0


From 3b1cbc97b394883353ee57e334fabe85f67c0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:37 +0000
Subject: [PATCH 10/45] fix: code generators no longer modify the caller's
 config

---
 encoding/gocode/gen.go     |  7 ++++---
 encoding/openapi/oapi.go   | 14 ++++++++++----
 encoding/typescript/gen.go |  8 ++++++--
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..34eb31e 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgname := cfg.PackageName
+	if pkgname == "" {
+		pkgname = sch.Lineage().Name()
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgname,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..f7ceb30 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -52,12 +52,18 @@ type Config struct {
 // Returns the result as a CUE AST, which is suitable for direct manipulation and
 // marshaling to either JSON or YAML.
 func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
-	if cfg == nil {
-		cfg = &Config{}
+	// Generation sets fields on the config. Work on copies, so that the caller's
+	// config is unchanged and can be reused for other schemas.
+	var ccfg Config
+	if cfg != nil {
+		ccfg = *cfg
 	}
-	if cfg.Config == nil {
-		cfg.Config = &openapi.Config{}
+	var ocfg openapi.Config
+	if ccfg.Config != nil {
+		ocfg = *ccfg.Config
 	}
+	ccfg.Config = &ocfg
+	cfg = &ccfg
 
 	gen := &oapiGen{
 		cfg: cfg,
diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..da16ce0 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -59,9 +59,13 @@ type TypeConfig struct {
 // GenerateTypes generates native TypeScript types and defaults corresponding to
 // the provided Schema.
 func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
-	if cfg == nil {
-		cfg = new(TypeConfig)
+	// Defaults are filled in below. Work on a copy, so that the caller's config is
+	// unchanged and can be reused for other schemas.
+	ccfg := new(TypeConfig)
+	if cfg != nil {
+		*ccfg = *cfg
 	}
+	cfg = ccfg
 	if cfg.CuetsyConfig == nil {
 		cfg.CuetsyConfig = &cuetsy.Config{
 			ImportMapper: cuetsy.IgnoreImportMapper,
-- 
2.43.0


From 9388e89fa7a023be792403a5947abd49e58ec561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:57 +0000
Subject: [PATCH 11/45] fix: allow single-element closed lists to be assignable
 to Go arrays

---
 assignable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assignable.go b/assignable.go
index f97fba5..5d51da3 100644
--- a/assignable.go
+++ b/assignable.go
@@ -221,6 +221,7 @@ func assignable(sch cue.Value, T interface{}) error {
 		var nonempty bool
 		if nonempty = iter.Next(); nonempty {
 			lastval = iter.Value()
+			los = lastval
 			for iter.Next() {
 				los = iter.Value() // it's fine to just keep updating the reference
 				// Failures indicate the CUE schema is unrepresentable in Go.
-- 
2.43.0


From 5b469a3c7291701681ced31e19e0c7a32233aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 12/45] fix: report every unassignable field, in a stable order

---
 assignable.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/assignable.go b/assignable.go
index 5d51da3..62fbbb5 100644
--- a/assignable.go
+++ b/assignable.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"cuelang.org/go/cue"
 )
@@ -168,7 +169,8 @@ func assignable(sch cue.Value, T interface{}) error {
 		}
 
 		for _, vp := range gmap {
-			errs[vp.Path.String()] = fmt.Errorf("%s: field present in Go type, absent from schema", vp.Path.String())
+			gp := cue.MakePath(append(p.Selectors(), vp.Path.Selectors()...)...)
+			errs[gp.String()] = fmt.Errorf("%s: field present in Go type, absent from schema", gp)
 		}
 	}
 
@@ -347,14 +349,19 @@ type assignErrs map[string]error
 func (m assignErrs) Error() string {
 	var buf bytes.Buffer
 
-	var i int
-	for _, err := range m {
-		if i == len(m)-1 {
-			fmt.Fprint(&buf, err)
+	// walk the paths in order, so that output is stable
+	paths := make([]string, 0, len(m))
+	for p := range m {
+		paths = append(paths, p)
+	}
+	sort.Strings(paths)
+
+	for i, p := range paths {
+		if i == len(paths)-1 {
+			fmt.Fprint(&buf, m[p])
 		} else {
-			fmt.Fprint(&buf, err, "\n")
+			fmt.Fprint(&buf, m[p], "\n")
 		}
-		i++
 	}
 
 	return (&buf).String()
-- 
2.43.0


From f1e14cfb459d3f3b523d95ff395c6ef2ed59f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 13/45] fix: give the right reason for erroneous forward Go
 lenses

---
 bind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bind.go b/bind.go
index 73183b6..c03af44 100644
--- a/bind.go
+++ b/bind.go
@@ -309,7 +309,7 @@ func (ml *maybeLineage) checkGoLensCompleteness() error {
 			} else {
 				// forward lenses
 				// either a minor lens was provided, or non-sequential versions connected
-				if lens.To[0] != lens.From[0] {
+				if lens.To[0] == lens.From[0] {
 					fmt.Fprintf(b, "\t%s (minor version upgrades are handled automatically)", elid)
 				} else {
 					fmt.Fprintf(b, "\t%s (%s is successor of %s, not %s)", elid, ml.allv[searchSynv(ml.allv, elid.From)+1], elid.From, elid.To)
-- 
2.43.0


From 878e8cf5e567697f554cbc78679b0ddc314abdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 14/45] fix: do not use generated output as a format string

---
 cmd/thema/lineage_subgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..82cae0f 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -250,7 +250,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 	} else {
-		fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+		fmt.Fprintf(buf, goheaderp, gc.epath)
 	}
 	b, err := gocode.GenerateTypesOpenAPI(gc.sch, &gocode.TypeConfigOpenAPI{
 		PackageName: gc.pkgname,
@@ -361,7 +361,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		return nil
 	}
 
-	fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+	fmt.Fprintf(buf, goheaderp, gc.epath)
 	buf.Write(f)
 
 	path := gc.lla.absInput
-- 
2.43.0


From 1093572a5a92f88d58533f437809be4d5d077d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 15/45] fix: exit nonzero when an unrecognized output format is
 requested

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 82cae0f..dcc1dff 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 5b746dd8ffafd8602fa1c643167050c8ce6eef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 16/45] fix: bind the gotypes --stdout and bump --no-fill flags
 to their own variables

---
 cmd/thema/lineage_bump.go   | 2 +-
 cmd/thema/lineage_subgen.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_bump.go b/cmd/thema/lineage_bump.go
index 706a67d..1a28438 100644
--- a/cmd/thema/lineage_bump.go
+++ b/cmd/thema/lineage_bump.go
@@ -29,7 +29,7 @@ func (bc *bumpCommand) setup(cmd *cobra.Command) {
 	addLinPathVars(lineageBumpCmd, bc.lla)
 
 	lineageBumpCmd.Flags().BoolVar(&bc.maj, "major", false, "Bump the major version (breaking change) instead of the minor version")
-	lineageBumpCmd.Flags().BoolVar(&bc.maj, "no-fill", false, "Do not pre-fill the new schema with the prior schema")
+	lineageBumpCmd.Flags().BoolVar(&bc.skipfill, "no-fill", false, "Do not pre-fill the new schema with the prior schema")
 	lineageBumpCmd.PreRunE = bc.lla.validateLineageInput
 	// lineageBumpCmd.Run = bc.run
 	// TODO un-hide this once cue encoding package is refactored
diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index dcc1dff..53efc7c 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From ea7d3b890f4d1ceb70461a6255afc6b55a66e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 17/45] fix: make YAML the default OpenAPI output format, as
 documented

---
 cmd/thema/lineage_subgen.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 53efc7c..5cbcf35 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -38,9 +38,12 @@ type genCommand struct {
 
 	quiet bool
 
-	// input file format (yaml, json, etc.)
+	// output format for JSON Schema (yaml, json, etc.)
 	format string
 
+	// output format for OpenAPI (yaml, json, etc.), which has a different default
+	oapiformat string
+
 	lin thema.Lineage
 	sch thema.Schema
 	// go type to bind to
@@ -62,7 +65,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	gop := genOapiLineageCmd
 	genLineageCmd.AddCommand(gop)
 	gop.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gop.Flags().StringVarP(&gc.format, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
+	gop.Flags().StringVarP(&gc.oapiformat, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
 	gop.Run = gc.run
 
 	gj := genJschLineageCmd
@@ -170,7 +173,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.oapiformat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -182,7 +185,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiformat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 3345a6c92a9a5e23fcae66f61c02c32dd3972ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 18/45] fix: accept an explicit input format when data comes
 from stdin

---
 cmd/thema/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..ccc0a8e 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -387,7 +387,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 		return errors.New("unrecognized format of input data")
 
 	case "json":
-		if ext != "json" {
+		if ext != "" && ext != "json" {
 			return fmt.Errorf("JSON input format specified, but file extension is %s", ext)
 		}
 
@@ -396,7 +396,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 			return err
 		}
 	case "yaml":
-		if ext != "yaml" {
+		if ext != "" && ext != "yaml" {
 			return fmt.Errorf("YAML input format specified, but file extension is %s", ext)
 		}
 
-- 
2.43.0


From 712bbbece4bbe69aab9ca0d20dae579c81b76859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:27 +0000
Subject: [PATCH 19/45] fix: do not drop input errors in lineage init openapi

---
 cmd/thema/lineage_init.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..c5f1d93 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -259,18 +259,20 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 		Stdin: bytes.NewBuffer(input),
 	}
 	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
+	if len(binsts) == 0 || len(binsts[0].OrphanedFiles) == 0 {
 		return nil, fmt.Errorf("could not load input file")
 	}
 
+	bf := binsts[0].OrphanedFiles[0]
+
 	var f *ast.File
 	var err error
 	switch bf.Encoding {
 	case build.YAML:
 		f, err = yaml.Extract("input", input)
 	case build.JSON:
-		expr, err := json.Extract("input", input)
+		var expr ast.Expr
+		expr, err = json.Extract("input", input)
 		if err == nil {
 			f = &ast.File{
 				Decls: []ast.Decl{expr},
-- 
2.43.0


From eb0535157ff5ab13725bbd7a5a1e800233a22061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:44 +0000
Subject: [PATCH 20/45] fix: never return an empty validation error

---
 validate.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index c4bfdf9..43e18bc 100644
--- a/validate.go
+++ b/validate.go
@@ -113,7 +113,8 @@ func mungeValidateErr(err error, sch Schema) error {
 		return err
 	}
 
-	var errs validationFailure
+	// errors that have none of the known forms are only reported if there are no others
+	var errs, other validationFailure
 	for _, ee := range errors.Errors(err) {
 		inputPositions := ee.InputPositions()
 		schpos, datapos := splitTokens(inputPositions)
@@ -210,6 +211,11 @@ func mungeValidateErr(err error, sch Schema) error {
 			errs = append(errs, err)
 			continue
 		}
+
+		other = append(other, fmt.Errorf("%s: validation failed, data is not an instance: %w", x, ee))
+	}
+	if len(errs) == 0 {
+		return other
 	}
 	return errs
 }
-- 
2.43.0


From 4abdd2414fd0c648fb6dc481edba212cb6ca50bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:25 +0000
Subject: [PATCH 21/45] fix: only take thema's own #Lineage for a lineage
 declaration

A conjunct that refers to any definition named #Lineage was taken for
thema.#Lineage, so that the input was never unified with it.
---
 lineage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lineage.go b/lineage.go
index 6511269..d1c122b 100644
--- a/lineage.go
+++ b/lineage.go
@@ -69,8 +69,8 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 	if vlist := cuetil.AppendSplit(orig, cue.AndOp, nil); len(vlist) > 1 {
 		others := make([]cue.Value, 0, len(vlist))
 		for _, av := range vlist {
-			_, path := av.ReferencePath()
-			if path.String() != "#Lineage" {
+			root, path := av.ReferencePath()
+			if path.String() != "#Lineage" || !isThemaPackage(root) {
 				others = append(others, av)
 			}
 		}
@@ -152,6 +152,13 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 	return lin, nil
 }
 
+// isThemaPackage reports whether the value is the root of the thema CUE package,
+// as opposed to some other package that happens to use the same names.
+func isThemaPackage(v cue.Value) bool {
+	inst := v.BuildInstance()
+	return inst != nil && inst.ImportPath == "github.com/grafana/thema"
+}
+
 func isValidLineage(lin Lineage) {
 	switch tlin := lin.(type) {
 	case nil:
-- 
2.43.0


From 69b1f8cae4633448fa681fb887d2c83cdedf6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:58 +0000
Subject: [PATCH 22/45] fix: key examples by their name, not by its quoted CUE
 form

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 445134d..a6f4dbc 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func (sch *schemaDef) Examples() map[string]*Instance {
 
 	examples := make(map[string]*Instance)
 	for it.Next() {
-		label := it.Selector().String()
+		label := it.Label()
 		examples[label] = &Instance{
 			valid: true,
 			raw:   it.Value(),
-- 
2.43.0


From 25f533aee9641b2c9a820498ecaa3625ddb09849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 23/45] fix: do not panic on validation errors with a short
 path

Errors that originate in the data itself, such as an unresolved reference,
carry a path that does not lead through the lineage's schemas list.
---
 validate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 43e18bc..1592588 100644
--- a/validate.go
+++ b/validate.go
@@ -280,11 +280,16 @@ func splitTokens(poslist []token.Pos) (schpos, datapos []token.Pos) {
 
 func trimThemaPath(parts []string) []string {
 	for i, s := range parts {
-		if s == "schemas" {
+		if s == "schemas" && len(parts) >= i+3 {
 			return parts[i+3:]
 		}
 	}
 
+	// Errors in the data itself may have no path
+	if len(parts) == 0 {
+		return parts
+	}
+
 	// Otherwise, it's one of the defpath patterns - eliminate first element
 	return parts[1:]
 }
-- 
2.43.0


From 1c49e19d905a9fdf5aca7062798946a8be98d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:04 +0000
Subject: [PATCH 24/45] fix: openapi subpaths below the first level are found

Each selector of Config.Subpath was looked for in the root of the schema
instead of in the value the preceding selectors lead to, so every nested
path was refused as not present.
---
 encoding/openapi/oapi.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index f7ceb30..1c674e2 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -186,10 +186,12 @@ func genSchema(gen *oapiGen, val cue.Value) ([]ast.Decl, error) {
 	}
 
 	if hasSubpath {
+		parent := val
 		for i, sel := range gen.cfg.Subpath.Selectors() {
-			if !val.Allows(sel) {
+			if !parent.Allows(sel) {
 				return nil, errors.Newf(cuetil.FirstNonThemaPos(val), "subpath %q not present in schema", cue.MakePath(gen.cfg.Subpath.Selectors()[:i+1]...))
 			}
+			parent = parent.LookupPath(cue.MakePath(sel))
 		}
 		if err := pathAllowed(gen.join, gen.cfg.Subpath); err != nil {
 			return nil, err
@@ -256,6 +258,10 @@ func pathAllowed(v cue.Value, path cue.Path) error {
 		if !v.Allows(sel) {
 			return errors.Newf(v.Pos(), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
 		}
+		if v = v.LookupPath(cue.MakePath(sel)); !v.Exists() {
+			// v says nothing about the rest of the path
+			return nil
+		}
 	}
 
 	return nil
-- 
2.43.0


From 2e85850bb86f20dea97546161326e49fae92c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:04 +0000
Subject: [PATCH 25/45] fix: generated Go package names default to lowercase

TypeConfigOpenAPI.PackageName documents, and GenerateLineageBinding
implements, the lowercase version of the lineage name as the default.
---
 encoding/gocode/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index 34eb31e..e0304c9 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -96,7 +96,7 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	}
 	pkgname := cfg.PackageName
 	if pkgname == "" {
-		pkgname = sch.Lineage().Name()
+		pkgname = strings.ToLower(sch.Lineage().Name())
 	}
 
 	ccfg := codegen.Configuration{
-- 
2.43.0


From 4cd9d1cd1bc9c01c57ec782aef2a0cb6db20827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 26/45] fix: openapi generation of a group without fields is an
 error, not a panic

Schemas need not be structs, and asking such a schema for its fields fails.
---
 encoding/openapi/oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 1c674e2..b460ce9 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -132,7 +132,7 @@ func genGroup(gen *oapiGen) ([]ast.Decl, error) {
 	ctx := gen.sch.Underlying().Context()
 	iter, err := gen.schdef.Fields(cue.Definitions(true), cue.Optional(true))
 	if err != nil {
-		panic(fmt.Errorf("unreachable - should always be able to get iter for struct kinds: %w", err))
+		return nil, fmt.Errorf("only a schema with fields can be generated as a group: %w", err)
 	}
 
 	var decls []ast.Decl
-- 
2.43.0


From 46f36e9b37b5f9cd10cb9861afd81de86d17c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:39 +0000
Subject: [PATCH 27/45] fix: JSON Schema rewriting reaches the branches of
 oneOf, allOf, anyOf and not

Branches below a node with a type of its own kept OpenAPI keywords such as
nullable, which JSON Schema does not know. A node of unknown type below
another is reported as an error, as it is at the top, instead of a panic.
---
 encoding/jsonschema/jschema.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index b519526..cde2782 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -216,9 +216,18 @@ func checkNull(n *ast.StructLit) bool {
 	return false
 }
 
-func (s *schNode) process() {
+func (s *schNode) process() error {
 	if err := s.scanf(s, s.n); err != nil {
-		panic(err)
+		return err
+	}
+
+	// Recurse down the logical operators
+	for _, el := range s.n.Elts {
+		if isLogicOp(el) {
+			if err := scan(s, el); err != nil {
+				return err
+			}
+		}
 	}
 
 	astutil.Apply(s.n, func(c astutil.Cursor) bool {
@@ -254,6 +263,7 @@ func (s *schNode) process() {
 			Value: ast.NewString("http://json-schema.org/draft-04/schema#"),
 		})
 	}
+	return nil
 }
 
 func scan(p *schNode, n ast.Node) error {
@@ -275,7 +285,7 @@ func scan(p *schNode, n ast.Node) error {
 		}
 
 		if sch != nil {
-			sch.process()
+			fatal = sch.process()
 		}
 		return sch == nil
 	}, nil)
@@ -284,5 +294,5 @@ func scan(p *schNode, n ast.Node) error {
 }
 
 type schemaNode interface {
-	process()
+	process() error
 }
-- 
2.43.0


From 08fa21e76f87dbdf9ab72ae536e12366bcb86672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 28/45] fix: generated JSON Schema accepts null wherever the
 schema does

nullable was only turned into a type for nodes that have one. Where the node
has no type, or its enum or logical operators exclude null, null was refused
or nullable was left behind. Null is now an alternative to the whole node there.
---
 encoding/jsonschema/jschema.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index cde2782..181916e 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -150,11 +150,14 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 	}
 
 	typ, err := getSchemaType(n)
-	if err != nil {
+	// A nullable schema need not have a type of its own, for example if it refers
+	// to another one.
+	if err != nil && !checkNull(n) {
 		return nil, err
 	}
+	inner.typ = typ
 	switch typ {
-	case "object":
+	case "object", "":
 		inner.scanf = func(p *schNode, n *ast.StructLit) error {
 			p.ensureNull = checkNull(n)
 
@@ -230,6 +233,13 @@ func (s *schNode) process() error {
 		}
 	}
 
+	// Adding null to the type is not enough where something other than the type
+	// excludes it. Make it an alternative to the whole schema there.
+	wrap := s.ensureNull && (s.typ == "" || getFieldWithLabel(s.n, "enum") != nil)
+	for _, el := range s.n.Elts {
+		wrap = wrap || s.ensureNull && isLogicOp(el)
+	}
+
 	astutil.Apply(s.n, func(c astutil.Cursor) bool {
 		switch x := c.Node().(type) {
 		case *ast.StructLit:
@@ -247,7 +257,7 @@ func (s *schNode) process() error {
 				case "deprecated", "discriminator", "example", "externalDocs", "nullable", "readOnly", "writeOnly", "xml":
 					c.Delete()
 				case "type":
-					if s.ensureNull && !typeContains(x, "null") {
+					if s.ensureNull && !wrap && !typeContains(x, "null") {
 						x.Value = ast.NewList(x.Value, ast.NewString("null"))
 					}
 				}
@@ -256,6 +266,16 @@ func (s *schNode) process() error {
 		return false
 	}, nil)
 
+	if wrap {
+		s.n.Elts = []ast.Decl{&ast.Field{
+			Label: ast.NewString("anyOf"),
+			Value: ast.NewList(
+				&ast.StructLit{Elts: s.n.Elts},
+				ast.NewStruct("type", ast.NewString("null")),
+			),
+		}}
+	}
+
 	// Add the $schema field to root only
 	if s.parent == nil {
 		s.n.Elts = append(s.n.Elts, &ast.Field{
-- 
2.43.0


From de79233d679de3091ad1002406d3a826c7b7d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 29/45] fix: generated Go replaces union types inside lists of
 maps and maps of structs

---
 encoding/gocode/decorators.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/gocode/decorators.go b/encoding/gocode/decorators.go
index b27ce8a..167b143 100644
--- a/encoding/gocode/decorators.go
+++ b/encoding/gocode/decorators.go
@@ -256,6 +256,8 @@ func iterateMap(s *dst.MapType, fn func(i *dst.Ident)) {
 		iterateArray(mx, fn)
 	case *dst.MapType:
 		iterateMap(mx, fn)
+	case *dst.StructType:
+		iterateStruct(mx, fn)
 	}
 }
 
@@ -265,6 +267,8 @@ func iterateArray(a *dst.ArrayType, fn func(i *dst.Ident)) {
 		fn(mx)
 	case *dst.ArrayType:
 		iterateArray(mx, fn)
+	case *dst.MapType:
+		iterateMap(mx, fn)
 	case *dst.StructType:
 		iterateStruct(mx, fn)
 	}
-- 
2.43.0


From 1eddb3ec9eb5db96df2e4a5aac2eeb585a0bd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 30/45] fix: generated Go declares the types nested in a map's
 struct values

---
 internal/deepmap/oapi-codegen/pkg/codegen/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
index 61ed40b..5a9254d 100644
--- a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
+++ b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
@@ -352,7 +352,7 @@ func GenerateGoSchema(sref *openapi3.SchemaRef, path []string) (Schema, error) {
 					additionalSchema.AdditionalTypes = append(additionalSchema.AdditionalTypes, typeDef)
 				}
 				outSchema.AdditionalPropertiesType = &additionalSchema
-				outSchema.AdditionalTypes = append(outSchema.AdditionalTypes, additionalSchema.AdditionalTypes...)
+				outSchema.AdditionalTypes = append(outSchema.AdditionalTypes, additionalSchema.GetAdditionalTypeDefs()...)
 			}
 
 			// If the schema has no properties, and only additional properties, we will
-- 
2.43.0


From 91643e40c6946db4d2ee18d6ed04cdd71052c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 31/45] fix: generated Go replaces a union type that another
 type is an alias of

---
 encoding/gocode/decorators.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/gocode/decorators.go b/encoding/gocode/decorators.go
index 167b143..9268a06 100644
--- a/encoding/gocode/decorators.go
+++ b/encoding/gocode/decorators.go
@@ -157,6 +157,9 @@ func fixRawData() dstutil.ApplyFunc {
 							continue
 						}
 						// Set types that was using these structs as interface{}
+						if id, ok := tp.Type.(*dst.Ident); ok {
+							withoutRawData(existingRawFields)(id)
+						}
 						if st, ok := tp.Type.(*dst.StructType); ok {
 							iterateStruct(st, withoutRawData(existingRawFields))
 						}
-- 
2.43.0


From 2108d0a15d5c9363c7cba0a05f6050bc500ce865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:32 +0000
Subject: [PATCH 32/45] fix: data commands without --version consider every
 schema, as documented

The latest schema is always loaded, so the test for a loaded schema never told
whether a version had been asked for: hydrate and dehydrate only accepted
instances of the latest schema, and validate-any tried it first and printed its
error.
---
 cmd/thema/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ccc0a8e..c4027ce 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -135,7 +135,7 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	}
 
 	var reterr error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
 			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
@@ -236,7 +236,7 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
@@ -280,7 +280,7 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
-- 
2.43.0


From e8bbe84c36683082bb49dec2808a83b2c8465db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:35 +0000
Subject: [PATCH 33/45] fix: validate and validate-any print nothing with
 --quiet

---
 cmd/thema/data.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c4027ce..f8dbe85 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -43,14 +43,14 @@ func (dc *dataCommand) setup(cmd *cobra.Command) {
 	validateCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against. defaults to latest")
 	validateCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateCmd.RunE = dc.runValidate
 
 	dataCmd.AddCommand(validateAnyCmd)
 	validateAnyCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against")
 	validateAnyCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateAnyCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateAnyCmd.RunE = dc.runValidateAny
 
 	dataCmd.AddCommand(translateCmd)
@@ -138,13 +138,17 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			if !dc.quiet {
+				fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			}
 			return nil
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		if !dc.quiet {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		}
 		return nil
 	}
 
@@ -302,6 +306,13 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 	return err
 }
 
+// applyQuiet keeps cobra from printing the command's error if quiet was
+// requested; the error still determines the exit status.
+func (dc *dataCommand) applyQuiet(cmd *cobra.Command, args []string) error {
+	cmd.SilenceErrors = dc.quiet
+	return nil
+}
+
 func pathOrStdin(args []string) ([]byte, error) {
 	var byt []byte
 	switch len(args) {
-- 
2.43.0


From 538ca44ef4ae0160ba26f4c600ce4ccfe2a16610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:36 +0000
Subject: [PATCH 34/45] fix: lineage init openapi and jsonschema honour the
 name and package flags

---
 cmd/thema/lineage_init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index c5f1d93..9fc2c4e 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -48,12 +48,12 @@ func (ic *initCommand) setup(cmd *cobra.Command) {
 	initLineageCmd.AddCommand(initLineageOpenAPICmd)
 	initLineageOpenAPICmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the OpenAPI document. Default: whole document")
 	initLineageOpenAPICmd.Run = ic.run
-	initLineageOpenAPICmd.PreRunE = ic.processInput
+	initLineageOpenAPICmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 
 	initLineageCmd.AddCommand(initLineageJSONSchemaCmd)
 	initLineageJSONSchemaCmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the JSON Schema document (e.g. #/...) Default: whole document")
 	initLineageJSONSchemaCmd.Run = ic.run
-	initLineageJSONSchemaCmd.PreRunE = ic.processInput
+	initLineageJSONSchemaCmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 }
 
 var initLineageCmd = &cobra.Command{
-- 
2.43.0


From 40827d4b2753d48e3293d236af953c28d3ff1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:41 +0000
Subject: [PATCH 35/45] fix: load packages in a directory without cue.mod
 together with their imports

CUE does not resolve the imports of packages it finds through the package
wildcard, so a lineage that imports thema could not be loaded from a directory
outside of a CUE module.
---
 cmd/thema/load.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 102e623..d026dbc 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -138,7 +138,18 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 			Package:    "*",
 		}
 
-		binsts = load.Instances(args, cfg)
+		for _, binst := range load.Instances(args, cfg) {
+			switch {
+			case lla.pathIsDir && binst.Err == nil && binst.PkgName != "_":
+				// CUE does not resolve the imports of packages found through "*", so load
+				// the package again, by its name.
+				pcfg := *cfg
+				pcfg.Package = binst.PkgName
+				binsts = append(binsts, load.Instances(args, &pcfg)...)
+			case binst.Err != nil || len(binst.Files) > 0:
+				binsts = append(binsts, binst)
+			}
+		}
 	} else {
 		overlay := map[string]load.Source{}
 		// do no muckery if in thema mod dir
@@ -170,6 +181,9 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 	}
 
 	if lla.skipBindLineage {
+		if len(binsts) == 0 {
+			return nil, fmt.Errorf("no loadable CUE data found")
+		}
 		// just take the first one, ooof
 		dl.binst = binsts[0]
 		return dl, nil
-- 
2.43.0


From 848ba107f8a18628c848c056aceaa43f3f083307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:59 +0000
Subject: [PATCH 36/45] fix: do not panic on a value that is nothing but
 several unifications with #Lineage

BindLineage indexed into an empty list if all conjuncts of its input were
references to thema's #Lineage, instead of reporting what is missing.
---
 lineage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage.go b/lineage.go
index d1c122b..ffbf114 100644
--- a/lineage.go
+++ b/lineage.go
@@ -81,8 +81,8 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 			uni = lindef.Unify(orig)
 		} else {
 			// input value was unified with thema.#Lineage...
-			if len(others) == 1 {
-				// ...and there was only one other value, probably a struct literal (but don't lean
+			if len(others) <= 1 {
+				// ...and there was at most one other value, probably a struct literal (but don't lean
 				// on that assumption without adding more checks!)
 				raw = orig
 			} else {
-- 
2.43.0


From e217c5b42de32394a1ffbe90efe13ac3477f7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 37/45] fix: let BindType accept struct types, and leave its
 argument alone

BindType decoded the schema onto the value it was given: types that are not
pointers were refused although they are assignable, and the values of callers
that passed a pointer were overwritten with the schema's defaults.
---
 schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index a6f4dbc..03d8c23 100644
--- a/schema.go
+++ b/schema.go
@@ -180,8 +180,9 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 		Schema: sch,
 	}
 
-	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
+	// Verify that there are no problematic errors emitted from decoding. Decode onto
+	// a new T, as the provided one is the caller's, and not necessarily a pointer.
+	if err := sch.Underlying().LookupPath(pathSchDef).Decode(new(T)); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
-- 
2.43.0


From e95fa368e78e12ce76c0cb71953d25374d2a03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:25 +0000
Subject: [PATCH 38/45] fix: decode typed values from data and defaults, onto
 an empty value

TypedInstance.Value decoded the data alone, onto a value with the defaults of
the schema: defaults within optional structs and list elements were missing,
and optional fields of a default list's elements showed up in the elements of
the list in the data.
---
 instance.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index fb6c42b..94eaa67 100644
--- a/instance.go
+++ b/instance.go
@@ -169,9 +169,15 @@ func (inst *TypedInstance[T]) TypedSchema() TypedSchema[T] {
 func (inst *TypedInstance[T]) Value() (T, error) {
 	inst.check()
 
-	t := inst.tsch.NewT()
+	rt := inst.rt()
+	rt.rl()
+	defer rt.ru()
+	// Decode the data together with the schema, which has the defaults, also those
+	// within optional structs and lists. The target has to be empty: data does not
+	// replace all of a default that is already there, e.g. in a list.
+	var t T
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.raw.Decode(&t)
+	err := inst.sch.Underlying().LookupPath(pathSchDef).Unify(inst.Instance.raw).Decode(&t)
 	return t, err
 }
 
-- 
2.43.0


From 471f5fc7cad8093dbc5bd48e452f90159d01d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:56 +0000
Subject: [PATCH 39/45] fix: legacy rewriting renames every reference to a
 lens's from and to

Only references selecting exactly one field (from.a) were renamed. Longer
selections (from.a.b), indexing, and plain references were left pointing at
fields that no longer exist, or at the version fields of the new lens.
---
 encoding/cue/rewrite.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..8c1bb27 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -159,21 +159,16 @@ type legacyLens struct {
 // Rewrite the bodies of the lenses and any lacunas to have selectors using the
 // new field names
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
-	switch x := cursor.Node().(type) {
-	case *ast.SelectorExpr:
-		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
+	// ONLY want to change references, which are the identifiers that are resolved
+	// to some other node. Labels, and all but the first element in any chain of
+	// selectors, are not.
+	if x, is := cursor.Node().(*ast.Ident); is && x.Node != nil {
+		switch x.Name {
+		case "from":
+			cursor.Replace(ast.NewLit(token.STRING, "input"))
+		case "to":
+			cursor.Replace(ast.NewLit(token.STRING, "result"))
 		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
 	}
 	return true
 }
-- 
2.43.0


From 5eebf2336b5cda0a7678915ff5e17b862d744941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 40/45] fix: legacy rewriting replaces only the lineage's own
 seqs field

Fields named seqs nested in other fields of the lineage were replaced, too.
---
 encoding/cue/rewrite.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8c1bb27..edc9897 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -83,10 +83,15 @@ func RewriteLegacyLineage(inst cue.Value, path cue.Path) (*ast.File, error) {
 	astutil.Apply(src, func(cursor astutil.Cursor) bool {
 		switch x := cursor.Node().(type) {
 		case *ast.Field:
+			if cursor.Node() == src {
+				return true
+			}
 			if str, _, err := ast.LabelName(x.Label); err == nil && str == "seqs" {
 				cursor.Replace(fields.Elts[0])
 				cursor.InsertAfter(fields.Elts[1])
 			}
+			// Fields named seqs within other fields are not the lineage's own
+			return false
 		}
 		return true
 	}, nil)
-- 
2.43.0


From 0a4e9f06fc764ae95d8ed1ee5b030970f6e938d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:12 +0000
Subject: [PATCH 41/45] fix: legacy rewriting reports lens parts it cannot
 migrate

Lacunas declared by anything other than a list literal made it panic, and
lacunas declared more than once were silently dropped.
---
 encoding/cue/rewrite.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index edc9897..aaff145 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -194,7 +194,10 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 	} else if ll.mapper.Source() == nil {
 		return nil, fmt.Errorf("lens %s->%s returns nil for source, cannot migrate", ll.from, ll.to)
 	} else {
-		field := ll.mapper.Source().(*ast.Field)
+		field, is := ll.mapper.Source().(*ast.Field)
+		if !is {
+			return nil, fmt.Errorf("lens %s->%s mapper is not a field", ll.from, ll.to)
+		}
 		existing, is := field.Value.(*ast.StructLit)
 		if !is {
 			return nil, fmt.Errorf("lens %s->%s mapper is not a struct literal", ll.from, ll.to)
@@ -205,8 +208,15 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 	}
 
 	var lacsrc ast.Expr = ast.NewList()
-	if ll.lacunas.Exists() && ll.lacunas.Source() != nil {
-		src := ll.lacunas.Source().(*ast.Field).Value.(*ast.ListLit)
+	if ll.lacunas.Exists() {
+		field, is := ll.lacunas.Source().(*ast.Field)
+		if !is {
+			return nil, fmt.Errorf("lacunas of lens %s->%s are not declared by a single field, cannot migrate", ll.from, ll.to)
+		}
+		src, is := field.Value.(*ast.ListLit)
+		if !is {
+			return nil, fmt.Errorf("lacunas of lens %s->%s are not a list literal", ll.from, ll.to)
+		}
 		astutil.Apply(src, ll.rewriteFromTo, nil)
 		lacsrc = src
 	}
-- 
2.43.0


From 2821fb48750203304fb11fb3a0c2b224709d09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:33 +0000
Subject: [PATCH 42/45] fix: legacy rewriting of a lineage spread over files is
 an error

It panicked, where the documentation says that such lineages cannot be
rewritten.
---
 encoding/cue/rewrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index aaff145..3a5bba7 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -76,8 +76,8 @@ func RewriteLegacyLineage(inst cue.Value, path cue.Path) (*ast.File, error) {
 		}
 	}
 	if !found {
-		// shouldn't be reachable - v.Source() can't be nil
-		panic("should be unreachable")
+		// the source is nil if the lineage is implicitly unified across multiple files
+		return nil, fmt.Errorf("could not find a single declaration of the lineage in the package's files")
 	}
 
 	astutil.Apply(src, func(cursor astutil.Cursor) bool {
-- 
2.43.0


From 1f6713bb27a1372e3bfa92f1cdeffa3b8debc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 43/45] fix: legacy rewriting rejects sequences without schemas

The number of the sequence's last schema wrapped around, so that lenses to
and from version 0.18446744073709551615 were written.
---
 encoding/cue/rewrite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 3a5bba7..535a24f 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -319,6 +319,9 @@ func extractParts(raw cue.Value) ([]legacySchema, []legacyLens, error) {
 			minv++
 		}
 
+		if minv == uint(0) {
+			return nil, nil, fmt.Errorf("sequence %d contains no schemas", majv)
+		}
 		lastminv = minv
 		majv++
 	}
-- 
2.43.0


From 8aa86f50f0bac1a2fa03b9c294081dd032067783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:58 +0000
Subject: [PATCH 44/45] fix: give the data found valid, not only its schema,
 from #SearchAndValidate

---
 traverse.cue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traverse.cue b/traverse.cue
index 6762716..4081c3d 100644
--- a/traverse.cue
+++ b/traverse.cue
@@ -18,7 +18,7 @@ package thema
 	out: [ for _, sch in fn.lin.schemas if ((inst & sch._#schema) != _|_) {
 		v:    sch.version
 		lin:  fn.lin
-		inst: inst & sch._#schema
+		inst: fn.inst & sch._#schema
 	}, _|_][0]
 }
 
-- 
2.43.0


From e3f9202deb93eb96d5c93d3ca5d62187f9f70fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:31 +0000
Subject: [PATCH 45/45] fix: keep the imports a schema needs in the file of its
 new lineage

---
 encoding/cue/encode.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/encoding/cue/encode.go b/encoding/cue/encode.go
index 57f088b..a787430 100644
--- a/encoding/cue/encode.go
+++ b/encoding/cue/encode.go
@@ -21,6 +21,7 @@ import (
 // pkgname is empty, the resulting file will have no package declaration.
 func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 	x := astutil.Format(sch)
+	imports := schemaImports(x)
 	switch x.(type) {
 	case *ast.File, ast.Expr:
 		x = astutil.ToExpr(x)
@@ -33,6 +34,7 @@ func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 	vars := linTplVars{
 		PkgName: pkgname,
 		Name:    name,
+		Imports: imports,
 		Sch:     string(b),
 	}
 
@@ -49,6 +51,34 @@ func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 	return f, nil
 }
 
+// schemaImports returns the import specs of a formatted schema, as they appear
+// in source, other than the one of thema itself that each lineage file has. They
+// are lost when the schema is reduced to an expression.
+func schemaImports(n ast.Node) []string {
+	f, is := n.(*ast.File)
+	if !is {
+		return nil
+	}
+
+	var imports []string
+	for _, d := range f.Decls {
+		decl, is := d.(*ast.ImportDecl)
+		if !is {
+			continue
+		}
+		for _, spec := range decl.Specs {
+			str := spec.Path.Value
+			if spec.Name != nil {
+				str = spec.Name.Name + " " + str
+			}
+			if str != `"github.com/grafana/thema"` {
+				imports = append(imports, str)
+			}
+		}
+	}
+	return imports
+}
+
 // InsertSchemaNodeAs inserts the provided schema ast.Expr into the provided
 // lineage ast.Node at the position corresponding to the provided version. The
 // provided schema will either replace an existing schema, or be appended to the
@@ -94,6 +124,7 @@ func insertSchemaNodeAs(lin ast.Node, sch ast.Expr, v thema.SyntacticVersion) er
 type linTplVars struct {
 	PkgName string
 	Name    string
+	Imports []string
 	Sch     string
 }
 
@@ -101,7 +132,8 @@ type linTplVars struct {
 var emptyLineage = template.Must(template.New("newlin").Parse(`
 {{- if ne .PkgName "" }}package {{ .PkgName }}
 {{end}}import "github.com/grafana/thema"
-
+{{ range .Imports }}import {{ . }}
+{{ end }}
 thema.#Lineage
 name: "{{ .Name }}"
 schemas: [
-- 
2.43.0

