From 2335d2f7b2b1f0b5ab99eb5b6b79c1c45eb7ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 01/44] fix: forget a group's former rules when resolving
 memberships

The resolver kept a group registered as affected by every group it had
ever had a rule for.  Removing a rule and then adding the opposite one
made the propagation of changes recurse without end.
---
 internal/mresolver/memberships.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..c8da6a6 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -47,7 +47,9 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 
 	// Log all groups that affect this one to the group affectors
 	// set.  This is a map to all groups that if changed need to
-	// re-resolve this one.
+	// re-resolve this one.  The previous set of affectors is
+	// dropped first, as the group may have ceased to depend on
+	// some of them.
 	addAffector := func(affectee, affector string) {
 		if mr.atom.ga[affectee] == nil {
 			mr.atom.ga[affectee] = make(map[string]struct{})
@@ -55,6 +57,9 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	for _, ga := range mr.atom.ga {
+		delete(ga, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From d76bb3ce2a0b2c1a1597c74cd1787396dc986728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 02/44] fix: resolve groups that have a rule for a destroyed
 group

Destroying a group left every group with a rule for it resolved as it
was before, and after a restart such a group could not be resolved at
all, so that it had no members whatsoever.  A rule for a group that does
not exist now contributes nothing, and dependent groups are resolved
again when a group goes away or comes back.
---
 internal/mresolver/memberships.go | 45 ++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index c8da6a6..7de9117 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -87,12 +87,14 @@ func (mr *MResolver) resolveChanges(group string) {
 // maps.  It does not remove any references in the entity direct
 // memberships as this is assumed to have been done prior to deleting
 // the group.
+//
+// Groups that depend on the removed group keep the dependency on
+// record, so that they are resolved again should the group come back.
 func (mr *MResolver) RemoveGroup(group string) {
 	mr.gMutex.Lock()
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
@@ -100,12 +102,20 @@ func (mr *MResolver) RemoveGroup(group string) {
 		delete(ga, group)
 	}
 	mr.gMutex.Unlock()
+
+	for g := range mr.atom.ga[group] {
+		mr.resolveChanges(g)
+	}
 }
 
 // Resolve flattens out the membership tree and associated subtrees
 // for any group into a boolean expression of arbitrary complexity.
 // This expression can later be used to determine if an entity
 // contains a group, or if a group contains a given set of entities.
+//
+// A rule that names an unknown group contributes nothing to the
+// resolution; the remaining rules still apply, and
+// ErrInsufficientKnowledge is returned.
 func (mr *MResolver) Resolve(group string) error {
 	mr.gMutex.RLock()
 	g, ok := mr.atom.gc[group]
@@ -117,6 +127,7 @@ func (mr *MResolver) Resolve(group string) error {
 
 	mr.l.Trace("Resolving Group", "group", group)
 
+	var incomplete error
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolIdent, Ident: g.self})
@@ -125,8 +136,6 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -140,22 +149,25 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				incomplete = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless the
+			// group does not exist.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
 		}
+		if !ok {
+			continue
+		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -169,14 +181,21 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				incomplete = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless the
+			// group does not exist.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
 		}
+		if !ok {
+			continue
+		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
@@ -187,7 +206,7 @@ func (mr *MResolver) Resolve(group string) error {
 	mr.atom.gs.Add(group, expr)
 	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
-	return nil
+	return incomplete
 }
 
 // MembersOfGroup returns a list of all entities that are a member of
-- 
2.43.0


From 365a6bcd2d82c60b630721b5f6b795250c2de4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 03/44] fix: guard the membership resolver against concurrent
 changes

Changes to groups span several critical sections, iterate over the set
of affected groups and read the direct memberships without holding a
lock.  Concurrent requests could crash the server or leave stale
resolutions behind.
---
 internal/mresolver/memberships.go | 39 ++++++++++++++++++++-----------
 internal/mresolver/type.go        |  4 ++++
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 7de9117..00f930d 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -36,14 +36,8 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		exclude: exclude,
 	}
 
-	mr.gMutex.Lock()
-	mr.atom.gc[group] = &g
-	mr.gMutex.Unlock()
-
-	// Need to resolve the group here, and re-resolve any
-	// dependant groups that this one would have affected.
-	mr.l.Trace("Syncing group", "group", group)
-	mr.Resolve(group)
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
 
 	// Log all groups that affect this one to the group affectors
 	// set.  This is a map to all groups that if changed need to
@@ -57,6 +51,7 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	mr.atom.gc[group] = &g
 	for _, ga := range mr.atom.ga {
 		delete(ga, group)
 	}
@@ -68,21 +63,32 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 	}
 	mr.gMutex.Unlock()
 
-	// Propagate changes to all groups affected by this group
+	// Resolve the group here, and propagate changes to all groups
+	// affected by this group
+	mr.l.Trace("Syncing group", "group", group)
 	mr.resolveChanges(group)
 }
 
 // Recursively propagate resolutions all the way down.
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
-	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
-	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range mr.affectedBy(group) {
 		mr.resolveChanges(g)
 	}
 }
 
+// affectedBy returns the groups whose resolution depends directly on
+// the specified group.
+func (mr *MResolver) affectedBy(group string) []string {
+	mr.gMutex.RLock()
+	defer mr.gMutex.RUnlock()
+	out := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		out = append(out, g)
+	}
+	return out
+}
+
 // RemoveGroup removes all references to a group in the relations
 // maps.  It does not remove any references in the entity direct
 // memberships as this is assumed to have been done prior to deleting
@@ -91,6 +97,9 @@ func (mr *MResolver) resolveChanges(group string) {
 // Groups that depend on the removed group keep the dependency on
 // record, so that they are resolved again should the group come back.
 func (mr *MResolver) RemoveGroup(group string) {
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
+
 	mr.gMutex.Lock()
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
@@ -103,7 +112,7 @@ func (mr *MResolver) RemoveGroup(group string) {
 	}
 	mr.gMutex.Unlock()
 
-	for g := range mr.atom.ga[group] {
+	for _, g := range mr.affectedBy(group) {
 		mr.resolveChanges(g)
 	}
 }
@@ -218,6 +227,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 2f56c6e..15a7a58 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -14,6 +14,10 @@ import (
 type MResolver struct {
 	l hclog.Logger
 
+	// sMutex serializes changes to groups, each of which spans
+	// several critical sections of gMutex.
+	sMutex sync.Mutex
+
 	uMutex sync.RWMutex
 	gMutex sync.RWMutex
 
-- 
2.43.0


From 0c2385a6ca2d8b9cb5112b860cdf51574b2a21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 04/44] fix: refuse a rule by which a group expands itself

The cycle check only looked at the rules of the target, so a group could
include or exclude itself, which sends the membership resolution and the
cycle check itself into endless recursion.
---
 internal/tree/hooks/check-expansion-cycle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..1161af6 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -34,7 +34,7 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if err != nil {
 			return err
 		}
-		if cec.checkGroupCycles(child, g.GetName()) {
+		if child.GetName() == g.GetName() || cec.checkGroupCycles(child, g.GetName()) {
 			return tree.ErrExistingExpansion
 		}
 	}
-- 
2.43.0


From b27e6054f3adb420c059b38b6bffb78aa33ee159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 05/44] fix: compare whole group names when looking for an
 existing rule

A rule for a group was refused if the name occurred anywhere in another
rule of the group.
---
 internal/tree/hooks/check-immediate-expansions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..78897ae 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,7 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			if strings.SplitN(existing[k], ":", 2)[1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
-- 
2.43.0


From 6b6f2f262c8388dc25d51636a08cedb8d27a504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 06/44] fix: drop only the rules for the named group

Removing the rule for one group also removed the rules for every group
whose name contains the name given.
---
 internal/tree/hooks/patch-group-expansions.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..300ed64 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,7 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove the rules for exactly the named group.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +27,9 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			for _, mode := range []string{"INCLUDE", "EXCLUDE"} {
+				g.Expansions = util.PatchStringSlice(g.Expansions, mode+":"+parts[1], false, true)
+			}
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 5f01d7e7b29052b5361209d6de0a9151c6875035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 07/44] fix: match public keys exactly when adding and dropping
 them

Adding a key that is contained in one already there was silently
ignored, and dropping a key also dropped every key it is contained in.
---
 internal/tree/hooks/entity-keys.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..e58e5c9 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -15,14 +17,30 @@ type ManageEntityKeys struct {
 }
 
 // Run iterates on all keys in the request and adds or removes them
-// from the entity's keystore.
+// from the entity's keystore.  Keys are matched exactly, but dropping
+// a type without any key removes all keys of that type.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if !mek.mode && strings.Index(k, ":") == len(k)-1 {
+			e.Meta.Keys = dropKeyType(e.Meta.Keys, k)
+			continue
+		}
+		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
 	}
 	return nil
 }
 
+// dropKeyType removes all keys of one type, given as its prefix.
+func dropKeyType(keys []string, prefix string) []string {
+	var out []string
+	for _, k := range keys {
+		if !strings.HasPrefix(k, prefix) {
+			out = append(out, k)
+		}
+	}
+	return out
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From 3df4e0b04fb6c4ccc2ec741fddcfaa9c3e70abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 08/44] fix: keep entity updates to the typed metadata

An update of the typed metadata could lock or unlock an entity, which
needs a capability of its own, and could add key/value data that is
there already.  An update without any metadata crashed the server.
---
 internal/tree/hooks/merge-entity-meta.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..e35459f 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -21,10 +21,15 @@ type MergeEntityMeta struct {
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
+	if de.Meta == nil {
+		return nil
+	}
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.KV = nil
+	de.Meta.Locked = nil
 
 	proto.Merge(e, de)
 	return nil
-- 
2.43.0


From 53fae1ceec322fbfe9651a514f8b87709e843c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 09/44] fix: keep group updates to the fields they are meant
 for

An update of a group could grant the group capabilities, which needs
GLOBAL_ROOT, and add expansions without any of the checks for those.
---
 internal/tree/hooks/merge-group-meta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 51daf9ad32fd19f081c191d6edcbae324bda1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 10/44] fix: refuse names that refer outside of their own
 keyspace

Names are joined onto a key prefix as a path, so an empty name, ".", or
one with slashes in it could read, overwrite and destroy objects of the
other kind, or create objects that are never listed again.
---
 internal/db/db.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..f98873c 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -37,6 +38,13 @@ func New(backend string) (*DB, error) {
 	return x, nil
 }
 
+// validName checks that a name refers to exactly one value below its
+// prefix in the keyspace.  Other names would be resolved to a value of
+// a different kind, or to none that could ever be discovered.
+func validName(n string) bool {
+	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
+}
+
 // DiscoverEntityIDs searches the keyspace for all entity IDs.  All
 // returned strings are loadable entities.
 func (db *DB) DiscoverEntityIDs() ([]string, error) {
@@ -45,6 +53,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -64,6 +75,10 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	if !validName(e.GetID()) {
+		db.log.Warn("Refusing to store entity with invalid ID", "ID", e.GetID())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
@@ -79,6 +94,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -94,6 +112,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -113,6 +134,10 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	if !validName(g.GetName()) {
+		db.log.Warn("Refusing to store group with invalid name", "name", g.GetName())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
@@ -128,6 +153,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
-- 
2.43.0


From 2cc40c398febf8c347f24bc64814dcc7978b1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 11/44] fix: delegate group management only to holders of a
 valid token

---
 internal/rpc2/group.go | 10 +++++-----
 internal/rpc2/util.go  | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..b390167 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -56,7 +56,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.isDelegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -136,7 +136,7 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	if r.GetAction() != pb.Action_READ {
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err != nil && !s.isDelegated(ctx, err, &g) {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -331,7 +331,7 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 	g := r.GetGroup()
 
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.isDelegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -372,7 +372,7 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.isDelegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
@@ -402,7 +402,7 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.isDelegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..208c832 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -189,6 +189,21 @@ func (s *Server) manageByMembership(entityID string, g *types.Group) bool {
 	return false
 }
 
+// isDelegated checks if a request that was refused with reqErr may
+// proceed regardless, because the group it changes has delegated its
+// management to a group that the holder of the token is a member of.
+// Only a lack of capabilities can be made up for in this way.
+func (s *Server) isDelegated(ctx context.Context, reqErr error, g *types.Group) bool {
+	if reqErr != ErrRequestorUnqualified {
+		return false
+	}
+	ctx, err := s.checkToken(ctx)
+	if err != nil {
+		return false
+	}
+	return s.manageByMembership(getTokenClaims(ctx).EntityID, g)
+}
+
 // mutablePrequisitesAreMet checks for common mutable prerequisites
 // such as the server being in a writeable mode, and the correct
 // capability being present in a valid token.
-- 
2.43.0


From 5411701a01b153e652ad6ea3757c4f6a9646d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 12/44] fix: create nothing while it is unknown what exists

---
 internal/tree/hooks/fail-on-existing-entity.go |  9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 13 ++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..438cf1b 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -16,12 +17,18 @@ type FailOnExistingGroup struct {
 
 // Run contacts the datastore and attempts to load the group specified
 // by dg.  If the group loads successfully then an error is returned,
-// in other cases nil is returned.
+// and errors from the datastore are returned as well, unless they say
+// that there is no such group.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	_, err := f.LoadGroup(dg.GetName())
+	switch err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From 86f04614aef5ffe6b870a08e649e124c389bafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 13/44] fix: accept no authentication with an empty secret

---
 internal/tree/hooks/validate-entity-secret.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/validate-entity-secret.go b/internal/tree/hooks/validate-entity-secret.go
index d4ee04a..4aef25f 100644
--- a/internal/tree/hooks/validate-entity-secret.go
+++ b/internal/tree/hooks/validate-entity-secret.go
@@ -17,6 +17,11 @@ type ValidateEntitySecret struct {
 
 // Run calls VerifySecret to compare de.Secret with the secured copy from e.Secret.
 func (v *ValidateEntitySecret) Run(e, de *pb.Entity) error {
+	if de.GetSecret() == "" {
+		// An entity may be created without a secret, and is
+		// not usable until it has one.
+		return crypto.ErrAuthorizationFailure
+	}
 	return v.VerifySecret(de.GetSecret(), e.GetSecret())
 }
 
-- 
2.43.0


From 8fb7a1bb55517ce37c4ecf34063f6f4a8138697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 14/44] fix: do not hand out negative numbers once the largest
 is in use

---
 internal/db/db.go     | 7 +++++++
 internal/db/errors.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index f98873c..9827ded 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -196,6 +197,9 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoNumber
+	}
 	return largest + 1, nil
 }
 
@@ -218,6 +222,9 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoNumber
+	}
 	return largest + 1, nil
 }
 
diff --git a/internal/db/errors.go b/internal/db/errors.go
index b4bed2d..351c321 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -25,6 +25,10 @@ var (
 	// filled for some reason.
 	ErrBadSearch = errors.New("the provided SearchRequest is invalid")
 
+	// ErrNoNumber is returned when the next number is requested
+	// but the largest possible one is already in use.
+	ErrNoNumber = errors.New("no further number is available")
+
 	// ErrNoValue is returned when no value exists for a given key.
 	ErrNoValue = errors.New("no value exists")
 )
-- 
2.43.0


From 62bf1563981ac6035d6d7fed55a3f2dc0c331c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 15/44] fix: survive a group update without a group

---
 internal/tree/group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
-- 
2.43.0


From 53c06b4f0d8f37191dc156f76b3a858aaab62395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 16/44] fix: keep concurrent changes from overwriting each
 other

---
 internal/tree/entity-chains.go | 13 +++++++++++++
 internal/tree/group-chains.go  |  5 +++++
 internal/tree/type.go          | 19 +++++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..f60084c 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -108,6 +108,19 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	switch chain {
+	case "FETCH":
+		// Only reads.
+	case "CREATE", "BOOTSTRAP-SERVER", "DESTROY":
+		m.existence.Lock()
+		defer m.existence.Unlock()
+		fallthrough
+	default:
+		l := m.entityLock(de.GetID())
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..5dfd016 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,11 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	if chain != "FETCH" {
+		m.groupLock.Lock()
+		defer m.groupLock.Unlock()
+	}
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..40e5a11 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -1,6 +1,9 @@
 package tree
 
 import (
+	"hash/fnv"
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/crypto"
@@ -41,9 +44,25 @@ type Manager struct {
 
 	resolver *mresolver.MResolver
 
+	// A chain that makes a change loads an entity or group, works
+	// on the copy, and stores the outcome.  These locks keep such
+	// chains from overwriting each other's changes.  Chains on
+	// different entities only wait for each other if they add or
+	// remove entities (which is what existence holds back).
+	existence   sync.Mutex
+	entityLocks [64]sync.Mutex
+	groupLock   sync.Mutex
+
 	log hclog.Logger
 }
 
+// entityLock returns the lock that guards changes to the given entity.
+func (m *Manager) entityLock(ID string) *sync.Mutex {
+	h := fnv.New32a()
+	h.Write([]byte(ID))
+	return &m.entityLocks[h.Sum32()%uint32(len(m.entityLocks))]
+}
+
 // DB specifies the methods that a DB engine must provide.
 type DB interface {
 	// Entity handling
-- 
2.43.0


From e06205bfdc1b5852874ae934709b6bf2c5c1af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 17/44] fix: keep temporary files out of the filesystem
 keyspace

---
 internal/db/filesystem/filesystem.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..9104cab 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -87,7 +87,23 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
+	// The temporary file must not be in the same directory as the
+	// value, since it would be mistaken for another value there.
+	t, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return err
+	}
+	defer t.Cleanup()
+
+	if err := t.Chmod(0640); err != nil {
+		return err
+	}
+
+	if _, err := t.Write(v); err != nil {
+		return err
+	}
+
+	if err := t.CloseAtomicallyReplace(); err != nil {
 		return err
 	}
 
-- 
2.43.0


From eb55d3c92d18b3485dc915e307a03e28b151486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 18/44] fix: find the keys below any home directory, or say why
 not

---
 internal/db/filesystem/filesystem.go | 52 ++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 9104cab..2bcd126 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,6 +17,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	atomic "github.com/google/renameio"
@@ -156,22 +157,45 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	out := []string{}
+	dirs, err := list(fs.basePath)
+	if err != nil {
+		return nil, err
+	}
+	for _, d := range dirs {
+		files, err := list(filepath.Join(fs.basePath, d))
+		if err != nil {
+			return nil, err
+		}
+		for _, file := range files {
+			k := "/" + d + "/" + file
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
 		}
 	}
-	return out[:i], nil
+	return out, nil
+}
+
+// list returns the names in a directory.  There are none in things that
+// do not exist or are not directories.
+func list(path string) ([]string, error) {
+	d, err := os.Open(path)
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+
+	if fi, err := d.Stat(); err != nil || !fi.IsDir() {
+		return nil, err
+	}
+	names, err := d.Readdirnames(-1)
+	sort.Strings(names)
+	return names, err
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From 93b25a4151235a94e215a51a41ff6936fe494131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:16 +0000
Subject: [PATCH 19/44] fix: find values written before a crash of a server
 using bitcask

---
 internal/db/bitcask/bitcask.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..fa5cabb 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,6 +3,7 @@
 package bitcask
 
 import (
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -57,6 +58,15 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		return nil, err
 	}
 	x.s = b
+
+	// The metadata claims that the index on disk is complete, which
+	// ceases to be true with the first write.  If it remained in
+	// place, then what is written from here on would be lost if the
+	// process ends without closing the cask.
+	if err := os.Remove(filepath.Join(p, "meta.json")); err != nil && !os.IsNotExist(err) {
+		b.Close()
+		return nil, err
+	}
 	return x, nil
 }
 
-- 
2.43.0


From 188e92118b3424afb887bfc7265003f5d1ff24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 20/44] fix: report that a value could not be removed from a
 bitcask

---
 internal/db/bitcask/bitcask.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index fa5cabb..ee6a502 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -95,11 +95,11 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	// Deleting appends to the cask, which fails if there is no
+	// room for it.
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
-- 
2.43.0


From 10c2bd3cfffc71499bba9b6956992d1178bbc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 21/44] fix: tell unreadable values in a bitcask from those
 that do not exist

---
 internal/db/bitcask/bitcask.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index ee6a502..7884990 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -87,8 +87,10 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
-- 
2.43.0


From a00600d4f8a560d5fc1cd74dbb122697856e76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 22/44] fix: report a plugin that did not start instead of
 crashing the health report

---
 internal/plugin/tree/consumer/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..cd24b8a 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,12 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin is not running"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 5b40725f2acdfc506981d56c9e48417a3b83589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 23/44] fix: carry present but empty fields over the plugin
 link

The link uses gob, which drops pointers to zero values.  The required
fields of key/value data were lost in this way, after which an entity or
group that has an empty value could not be stored any more while a
plugin was loaded.
---
 internal/plugin/tree/common/interface.go |  8 +++
 internal/plugin/tree/common/rpc.go       | 71 ++++++++++++++++++++++++
 2 files changed, 79 insertions(+)

diff --git a/internal/plugin/tree/common/interface.go b/internal/plugin/tree/common/interface.go
index ba43e92..32212da 100644
--- a/internal/plugin/tree/common/interface.go
+++ b/internal/plugin/tree/common/interface.go
@@ -126,6 +126,10 @@ type PluginOpts struct {
 	DataEntity *pb.Entity
 	Group      *pb.Group
 	DataGroup  *pb.Group
+
+	// Wire holds the same messages in their protobuf encoding, see
+	// wireData.
+	Wire wireData
 }
 
 // PluginResult is returned by group and entity operations in plugins
@@ -134,6 +138,10 @@ type PluginOpts struct {
 type PluginResult struct {
 	Entity pb.Entity
 	Group  pb.Group
+
+	// Wire holds the same messages in their protobuf encoding, see
+	// wireData.
+	Wire wireData
 }
 
 type pluginMux interface {
diff --git a/internal/plugin/tree/common/rpc.go b/internal/plugin/tree/common/rpc.go
index 618bff1..0fb207e 100644
--- a/internal/plugin/tree/common/rpc.go
+++ b/internal/plugin/tree/common/rpc.go
@@ -3,6 +3,7 @@ package common
 import (
 	"net/rpc"
 
+	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-plugin"
 )
 
@@ -21,16 +22,20 @@ func (GoPluginRPC) Client(b *plugin.MuxBroker, c *rpc.Client) (interface{}, erro
 // ProcessEntity on the GoPluginServer type implements a net/rpc
 // server method that handles entities.
 func (p *GoPluginServer) ProcessEntity(opts PluginOpts, res *PluginResult) error {
+	opts.unpack()
 	tmp, err := p.Mux.HandleEntity(opts)
 	res.Entity = tmp.Entity
+	res.Wire.Entity = pack(&res.Entity)
 	return err
 }
 
 // ProcessGroup on the GoPluginServer type implements a net/rpc server
 // that handles groups.
 func (p *GoPluginServer) ProcessGroup(opts PluginOpts, res *PluginResult) error {
+	opts.unpack()
 	tmp, err := p.Mux.HandleGroup(opts)
 	res.Group = tmp.Group
+	res.Wire.Group = pack(&res.Group)
 	return err
 }
 
@@ -39,7 +44,9 @@ func (p *GoPluginServer) ProcessGroup(opts PluginOpts, res *PluginResult) error
 // modifications that handle entities only.
 func (c *GoPluginClient) ProcessEntity(opts PluginOpts) (PluginResult, error) {
 	var res PluginResult
+	opts.pack()
 	err := c.client.Call("Plugin.ProcessEntity", opts, &res)
+	unpack(res.Wire.Entity, &res.Entity)
 	return res, err
 }
 
@@ -48,6 +55,70 @@ func (c *GoPluginClient) ProcessEntity(opts PluginOpts) (PluginResult, error) {
 // modifications that handle entities only.
 func (c *GoPluginClient) ProcessGroup(opts PluginOpts) (PluginResult, error) {
 	var res PluginResult
+	opts.pack()
 	err := c.client.Call("Plugin.ProcessGroup", opts, &res)
+	unpack(res.Wire.Group, &res.Group)
 	return res, err
 }
+
+// wireData carries the protobuf encoding of the messages that go over
+// the link.  The link itself uses gob, which drops pointers to zero
+// values, so that a field which is present but empty would arrive as an
+// absent one.  Peers which don't know this encoding ignore it and don't
+// send it, in which case the messages that gob transported are used.
+type wireData struct {
+	Entity     []byte
+	DataEntity []byte
+	Group      []byte
+	DataGroup  []byte
+}
+
+// pack fills in the encoded form of all messages in the options.
+func (o *PluginOpts) pack() {
+	o.Wire = wireData{}
+	if o.Entity != nil {
+		o.Wire.Entity = pack(o.Entity)
+	}
+	if o.DataEntity != nil {
+		o.Wire.DataEntity = pack(o.DataEntity)
+	}
+	if o.Group != nil {
+		o.Wire.Group = pack(o.Group)
+	}
+	if o.DataGroup != nil {
+		o.Wire.DataGroup = pack(o.DataGroup)
+	}
+}
+
+// unpack restores all messages in the options from their encoded form.
+func (o *PluginOpts) unpack() {
+	if o.Entity != nil {
+		unpack(o.Wire.Entity, o.Entity)
+	}
+	if o.DataEntity != nil {
+		unpack(o.Wire.DataEntity, o.DataEntity)
+	}
+	if o.Group != nil {
+		unpack(o.Wire.Group, o.Group)
+	}
+	if o.DataGroup != nil {
+		unpack(o.Wire.DataGroup, o.DataGroup)
+	}
+}
+
+// pack encodes a message, the result is nil if that isn't possible.
+func pack(m proto.Message) []byte {
+	b, err := proto.Marshal(m)
+	if err != nil {
+		return nil
+	}
+	return b
+}
+
+// unpack replaces a message with the encoded one, if there is one.
+func unpack(b []byte, m proto.Message) {
+	if len(b) == 0 {
+		return
+	}
+	proto.Unmarshal(b, m)
+}
-- 
2.43.0


From b6c0dcd085b9d7380749015cdc9f6e9d47fcf63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 24/44] fix: let entities without metadata authenticate under
 fail2lock

---
 plugins/tree/fail2lock/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..f7840b7 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -66,6 +66,11 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	// Entities don't have metadata until it's first changed.
+	if e.Meta == nil {
+		e.Meta = &pb.EntityMeta{}
+	}
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-- 
2.43.0


From d3873af1625527806e8ab92df8c1c8d832dd4e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 25/44] fix: guard the failures recorded by fail2lock against
 concurrent use

---
 plugins/tree/fail2lock/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index f7840b7..384ed6b 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -51,6 +52,7 @@ func main() {
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
+		mu:         new(sync.Mutex),
 		failDB:     make(map[string][]time.Time),
 	})
 }
@@ -58,6 +60,9 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	// mu guards failDB, since any number of authentications may be
+	// in progress at a time.
+	mu     *sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -66,6 +71,9 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	// Entities don't have metadata until it's first changed.
 	if e.Meta == nil {
 		e.Meta = &pb.EntityMeta{}
@@ -105,6 +113,9 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
 func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From 2ce8484a50fefc30ddbb01a415c1381695a5bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:00 +0000
Subject: [PATCH 26/44] fix: apply the defaults of fail2lock to a partial
 configuration

With only a limit configured nothing was ever locked, with only an
interval configured nobody could authenticate.
---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 384ed6b..fa795a6 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -18,8 +18,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -42,13 +40,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -88,18 +85,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From e9bc7468744805e71b8fb4bd376356a504b3c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:58 +0000
Subject: [PATCH 27/44] fix: let a key be dropped without naming its type

The command line client drops keys by content alone, which exact
matching had stopped from working: a key given without a type stands
for the key of every type.
---
 internal/tree/hooks/entity-keys.go | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index e58e5c9..a05ef16 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -17,30 +17,43 @@ type ManageEntityKeys struct {
 }
 
 // Run iterates on all keys in the request and adds or removes them
-// from the entity's keystore.  Keys are matched exactly, but dropping
-// a type without any key removes all keys of that type.
+// from the entity's keystore.  Keys are matched exactly, but a key to
+// be removed that is given without a type or without any content
+// stands for those of every type, or with any content.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		if !mek.mode && strings.Index(k, ":") == len(k)-1 {
-			e.Meta.Keys = dropKeyType(e.Meta.Keys, k)
+		if mek.mode {
+			e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, true, true)
 			continue
 		}
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
+		e.Meta.Keys = dropKeys(e.Meta.Keys, k)
 	}
 	return nil
 }
 
-// dropKeyType removes all keys of one type, given as its prefix.
-func dropKeyType(keys []string, prefix string) []string {
+// dropKeys returns the keys that are not meant by the one specified.
+func dropKeys(keys []string, drop string) []string {
+	dropType, dropContent := splitKey(drop)
 	var out []string
 	for _, k := range keys {
-		if !strings.HasPrefix(k, prefix) {
-			out = append(out, k)
+		t, c := splitKey(k)
+		if (dropType == "" || dropType == t) && (dropContent == "" || dropContent == c) {
+			continue
 		}
+		out = append(out, k)
 	}
 	return out
 }
 
+// splitKey separates the type of a key from its content.
+func splitKey(k string) (string, string) {
+	parts := strings.SplitN(k, ":", 2)
+	if len(parts) == 1 {
+		return parts[0], ""
+	}
+	return parts[0], parts[1]
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From c17085d144a837901b5d9f6bd2fed4ba30c7977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 28/44] fix: accept capability actions in lower case

The command line tool accepts and documents 'capability X add Y', but
the client then refused the action because it is not in upper case.
---
 pkg/netauth/system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 0ea91f8..107d20b 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
@@ -21,6 +22,8 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 	}
 
 	ctx = c.appendMetadata(ctx)
+	action = strings.ToUpper(action)
+	capability = strings.ToUpper(capability)
 	cap, ok := pb.Capability_value[capability]
 	if !ok {
 		return fmt.Errorf("%s is not a recognized capability", capability)
-- 
2.43.0


From 319e593db42e87e3dad3347d62f6f59003d8ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 29/44] fix: list exactly the groups a group manages

GroupInfo of the client searched for the words of the name, so that the
groups managed by net-users were listed for net-admins as well, and a
name with a blank or a colon was taken for something else entirely.
---
 pkg/netauth/group.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..488f75f 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -67,13 +67,22 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return nil, nil, err
 	}
 
-	res2, err := c.GroupSearch(ctx, fmt.Sprintf("ManagedBy:%s", name))
+	// The search matches words, so the name has to be quoted, and what
+	// is found may be managed by a group with a similar name.
+	quoted := strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(name)
+	found, err := c.GroupSearch(ctx, fmt.Sprintf(`ManagedBy:"%s"`, quoted))
 	if err != nil {
 		c.log.Warn("Error searching", "error", err)
 		return res.GetGroups()[0], nil, nil
 	}
+	var managed []*pb.Group
+	for _, g := range found {
+		if g.GetManagedBy() == name {
+			managed = append(managed, g)
+		}
+	}
 
-	return res.GetGroups()[0], res2, nil
+	return res.GetGroups()[0], managed, nil
 }
 
 // GroupUM handles operations concerning the untyped key-value store
-- 
2.43.0


From 20b9b44f4597afb26e9606ec9055af4e585843c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:10 +0000
Subject: [PATCH 30/44] fix: refuse numbers that do not fit in the client

They were cut to 32 bits, so that an entity or group got another number
than the one asked for, or any (4294967295 is the same as -1 then).
---
 pkg/netauth/entity.go | 4 ++++
 pkg/netauth/group.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 1878d7d..42a0323 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -3,6 +3,7 @@ package netauth
 import (
 	"context"
 	"errors"
+	"fmt"
 	"sort"
 	"strings"
 
@@ -17,6 +18,9 @@ import (
 // Passing a -1 for the number will select the next valid number and
 // assign it to this entity.
 func (c *Client) EntityCreate(ctx context.Context, id, secret string, number int) error {
+	if int(int32(number)) != number {
+		return fmt.Errorf("%d is out of range for a number", number)
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 488f75f..0a2def0 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -19,6 +19,9 @@ import (
 // another group from the start, pass the name of another group here
 // as the managed-by value in order to enable delegated management.
 func (c *Client) GroupCreate(ctx context.Context, name, displayName, managedBy string, number int) error {
+	if int(int32(number)) != number {
+		return fmt.Errorf("%d is out of range for a number", number)
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
-- 
2.43.0


From d1bb9c781e1c9beb4994d3318c741030aa161fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 31/44] fix: return what was read for an indexed key or a key
 type in lower case

The client looked up the name as given among names without index, or in
upper case, so that reading phone{1} or the keys of type ssh yielded
nothing even if there were any.
---
 pkg/netauth/entity.go | 10 ++++++----
 pkg/netauth/group.go  |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 42a0323..cade3ac 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -121,8 +121,9 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  An index on the
+			// key makes no difference to the server.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
@@ -268,8 +269,9 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		kv := parseKV(res.GetStrings())
 		if ktype != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{ktype: kv[ktype]}, nil
+			// return a much sparser map.  The server keeps
+			// the types in upper case.
+			return map[string][]string{ktype: kv[strings.ToUpper(ktype)]}, nil
 		}
 		return kv, nil
 	}
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 0a2def0..364b1d5 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -123,8 +123,9 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  An index on the
+			// key makes no difference to the server.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
-- 
2.43.0


From 0750c6741fd0463e2ebe7a0d6a2634a377bba7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 32/44] fix: exit with an error after wrong usage

---
 cmd/nsutil/root.go   | 1 +
 internal/ctl/root.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/nsutil/root.go b/cmd/nsutil/root.go
index 56d5bf1..9c4a3c9 100644
--- a/cmd/nsutil/root.go
+++ b/cmd/nsutil/root.go
@@ -52,5 +52,6 @@ func onInit() {
 func execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 847665264476fc78b61e4da35a3d2d3804ed71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 33/44] fix: survive a missing public key in the client

Without the key of the server there was no token service, and checking
a cached token ended the program.
---
 pkg/netauth/netauth.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index fa23b96..305214d 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -64,6 +64,7 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	ts, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		l.Warn("Token service initialization error", "error", err)
+		ts = noTokenService{err}
 	}
 
 	hn, err := os.Hostname()
@@ -82,6 +83,21 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	}, nil
 }
 
+// noTokenService stands in for a token service that could not be
+// initialized, for instance because the server's public key is not
+// present on this machine.
+type noTokenService struct {
+	err error
+}
+
+func (n noTokenService) Generate(token.Claims, token.Config) (string, error) {
+	return "", n.err
+}
+
+func (n noTokenService) Validate(string) (token.Claims, error) {
+	return token.Claims{}, n.err
+}
+
 // New returns a client initialized, connected, and ready to use.
 func New() (*Client, error) {
 	return NewWithLog(hclog.L().Named("cli"))
-- 
2.43.0


From 6f45b649e3c79487a006f1d277678a70c8958003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 34/44] fix: do not set the secret of the caller on others

Asking for a new secret returned the secret of the caller if that one
was given in the environment or on the command line.
---
 internal/ctl/auth-changesecret.go |  4 ++--
 internal/ctl/entity-create.go     |  4 ++--
 internal/ctl/helpers.go           | 11 +++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/ctl/auth-changesecret.go b/internal/ctl/auth-changesecret.go
index 0640b44..6ffa559 100644
--- a/internal/ctl/auth-changesecret.go
+++ b/internal/ctl/auth-changesecret.go
@@ -60,8 +60,8 @@ func authChangeSecretRun(cmd *cobra.Command, args []string) {
 
 	// Get the secret if it wasn't specified on the line
 	if csSecret == "" {
-		one := getSecret("New Secret: ")
-		two := getSecret("Verify Secret: ")
+		one := getNewSecret("New Secret: ")
+		two := getNewSecret("Verify Secret: ")
 
 		if one != two {
 			fmt.Println("Secrets do not match!")
diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 516f249..3164bfd 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -52,8 +52,8 @@ func init() {
 
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
-	if newSecret == "" {
-		newSecret = getSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
+	if !cmd.Flags().Changed("initial-secret") {
+		newSecret = getNewSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
 	ctx = netauth.Authorize(ctx, token())
diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 7f7868d..c82bbb2 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -30,6 +30,17 @@ func getSecret(prompt string) string {
 	return secret
 }
 
+// Prompt for a secret that is to be set on an entity.  This must not
+// use the secret of the caller, even if that one was provided.
+func getNewSecret(prompt string) string {
+	secret, err := speakeasy.Ask(prompt)
+	if err != nil {
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
+	}
+	return secret
+}
+
 // token is used exclusively by the CLI to provide tokens either from
 // the cache or the RPC call. It returns a string or calls exit, there
 // are no conditions where the string will be returned without a
-- 
2.43.0


From 17b6281aa9a8afe6c3f9a86f9a90269287ce0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 35/44] fix: report failed copies

Errors while listing or copying were only printed, a target was
truncated for a source that could not be listed, and a store could be
truncated before it was copied onto itself.
---
 cmd/nsutil/db_copy.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..5438907 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -43,6 +43,11 @@ func init() {
 func dbCopyCmdRun(c *cobra.Command, args []string) {
 	startup.DoCallbacks()
 
+	if args[0] == args[1] {
+		fmt.Fprintln(os.Stderr, "The source and the target must not be the same.")
+		os.Exit(1)
+	}
+
 	source, err := db.NewKV(args[0], nil)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error initializing source: %s\n", err)
@@ -52,6 +57,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -64,6 +70,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
@@ -77,11 +84,14 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		os.Exit(0)
 	}
 
+	failed := false
+
 	// If we're truncating then go ahead and do that.
 	if dbCopyCmdTruncate {
 		for _, k := range targetKeys {
 			if err := target.Del(k); err != nil {
 				fmt.Fprintf(os.Stderr, "Error truncating target: %s\n", err)
+				failed = true
 			}
 		}
 	}
@@ -101,5 +111,8 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		}
 		count++
 	}
-	fmt.Println("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!", count)
+	fmt.Printf("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!\n", count)
+	if failed || count != len(sourceKeys) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 560d7d7507d1c72103bb57ac4e4a29f493ee17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 36/44] fix: replace cached tokens instead of writing to what
 is there

A file that others could read stayed readable with the token in it, a
link was followed, and readers could find an incomplete token.
---
 pkg/netauth/cache/fs/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..b18c09f 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -13,6 +13,8 @@ import (
 	"os"
 	"path/filepath"
 
+	atomic "github.com/google/renameio"
+
 	"github.com/netauth/netauth/pkg/netauth/cache"
 )
 
@@ -39,7 +41,10 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	// The cache is in a directory that others can write to, so what
+	// may already be at this place must be replaced rather than
+	// written to.
+	return atomic.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From 57dd5b960e40f5145b122b83638b2802b70839bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 37/44] fix: keep the names of token owners from acting as
 paths

---
 pkg/netauth/cache/fs/fs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index b18c09f..7ea73d6 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -10,6 +10,7 @@ package fs
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -77,6 +78,6 @@ func (fc *fsCache) DelToken(owner string) error {
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", url.PathEscape(owner), extension),
 	)
 }
-- 
2.43.0


From 34edfe47df5f063e9514b3700c641892a595d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:49 +0000
Subject: [PATCH 38/44] fix: listen for the signals that end the server before
 it serves

The channel for SIGINT and SIGTERM was set up by a goroutine that nobody
waited for.  On a busy machine the server already served requests when a
SIGTERM ended it at once, in the middle of them and without ending its
plugins.
---
 cmd/netauthd/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index e12621b..1a98ed5 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -375,9 +375,7 @@ func main() {
 	// should be added to the goroutine which will be signalled in
 	// the event of a process interrupt or termination signal.
 	c := make(chan os.Signal, 1)
-	go func() {
-		signal.Notify(c, os.Interrupt, syscall.SIGTERM)
-	}()
+	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
 	done := make(chan struct{}, 1)
 	go func() {
 		<-c
-- 
2.43.0


From 29cf41b6996c53b350944b1aa3b0cbcfa37b5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 39/44] fix: write generated token keys with their exact modes
 and whole

The files were created under the umask: with one of 027 or 077 the server
refused, at its next start, the public key that it had generated itself.
---
 internal/token/jwt/rsa.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..056c762 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -16,6 +16,7 @@ import (
 	"github.com/netauth/netauth/internal/token"
 
 	"github.com/dgrijalva/jwt-go"
+	atomic "github.com/google/renameio"
 )
 
 // An RSAToken is a token that provides both the token.Claims required
@@ -303,7 +304,7 @@ func marshalPrivateKey(key *rsa.PrivateKey, path string) error {
 			Bytes: x509.MarshalPKCS1PrivateKey(key),
 		},
 	)
-	if err := ioutil.WriteFile(path, pridata, 0400); err != nil {
+	if err := atomic.WriteFile(path, pridata, 0400); err != nil {
 		return token.ErrInternalError
 	}
 
@@ -323,7 +324,7 @@ func marshalPublicKey(key *rsa.PublicKey, path string) error {
 			Bytes: pubASN1,
 		},
 	)
-	if err := ioutil.WriteFile(path, pubdata, 0644); err != nil {
+	if err := atomic.WriteFile(path, pubdata, 0644); err != nil {
 		return token.ErrInternalError
 	}
 	return nil
-- 
2.43.0


From c406b8f9fd7a7f86dd4d1af1d421783d249a1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:26 +0000
Subject: [PATCH 40/44] fix: load a plugin that is listed twice only once

---
 internal/plugin/tree/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 78655e5..dc181be 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -51,6 +51,10 @@ func (m *Manager) LoadPlugins() {
 		}
 	}
 	for _, p := range list {
+		if _, loaded := m.plugins[p]; loaded {
+			m.logger.Warn("Plugin is listed more than once", "plugin", p)
+			continue
+		}
 		m.logger.Trace("Loading new plugin", "plugin", p)
 		im, err := consumer.New(p)
 		if err != nil {
-- 
2.43.0


From b26c3ac76cff8d6b099dd20c64a670092bae4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:37 +0000
Subject: [PATCH 41/44] fix: report the health of every plugin, also of those
 of the same name

---
 internal/plugin/tree/consumer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index cd24b8a..8f9945e 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -41,7 +41,8 @@ func (r *Ref) Shutdown() {
 // Init sets up the plugin and gets it running, an expectation exists
 // that the ref will be stored during the lifetime of the server.
 func (r *Ref) Init() error {
-	health.RegisterCheck("plugin-"+r.Name(), r.healthCheck)
+	// Plugins in different places may have the same name.
+	health.RegisterCheck("plugin-"+r.path, r.healthCheck)
 
 	r.cfg = plugin.NewClient(&plugin.ClientConfig{
 		HandshakeConfig: handshakeConfig,
-- 
2.43.0


From f3a5725d5d113dbca42eb9263f8863599c25a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:41 +0000
Subject: [PATCH 42/44] fix: open a bitcask whose own files were cut short

---
 internal/db/bitcask/bitcask.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 7884990..a785c4c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,6 +3,8 @@
 package bitcask
 
 import (
+	"encoding/json"
+	"io/ioutil"
 	"os"
 	"path"
 	"path/filepath"
@@ -53,6 +55,9 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
 		bitcask.WithSync(true),
 	}
+	if err := dropCutFiles(p); err != nil {
+		return nil, err
+	}
 	b, err := bitcask.Open(p, opts...)
 	if err != nil {
 		return nil, err
@@ -70,6 +75,24 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	return x, nil
 }
 
+// dropCutFiles removes the files in which the cask keeps its settings
+// and its notes on the index if they were cut short, which happens if
+// the process ends while they are written.  The cask does not open
+// with them, and does without either of them.
+func dropCutFiles(p string) error {
+	for _, name := range []string{"config.json", "meta.json"} {
+		f := filepath.Join(p, name)
+		b, err := ioutil.ReadFile(f)
+		if err != nil || json.Valid(b) {
+			continue
+		}
+		if err := os.Remove(f); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-- 
2.43.0


From d860f8353c739d95c6fcf4c490221ca75af6c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:14 +0000
Subject: [PATCH 43/44] fix: read all data of a bitcask that was not closed

---
 internal/db/bitcask/bitcask.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index a785c4c..c270e99 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -58,6 +58,9 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	if err := dropCutFiles(p); err != nil {
 		return nil, err
 	}
+	if err := dropStaleIndex(p); err != nil {
+		return nil, err
+	}
 	b, err := bitcask.Open(p, opts...)
 	if err != nil {
 		return nil, err
@@ -93,6 +96,27 @@ func dropCutFiles(p string) error {
 	return nil
 }
 
+// dropStaleIndex removes the index of a cask that was not closed.  The
+// cask completes such an index from its last data file only, though
+// the one before may hold data which is not in the index either: the
+// index is written some time after a new data file was begun.  Without
+// an index, all data files are read.
+func dropStaleIndex(p string) error {
+	var meta struct {
+		Complete bool `json:"index_up_to_date"`
+	}
+	if b, err := ioutil.ReadFile(filepath.Join(p, "meta.json")); err == nil {
+		json.Unmarshal(b, &meta)
+	}
+	if meta.Complete {
+		return nil
+	}
+	if err := os.Remove(filepath.Join(p, "index")); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return nil
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-- 
2.43.0


From 1e60737e0eefd8856099bb5eaa013f3fe808b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:13 +0000
Subject: [PATCH 44/44] fix: the memory store no longer writes stored values,
 secrets included, to the log

---
 internal/db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index 7287afa..b2fe885 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -54,7 +54,7 @@ func (kv *KV) SetEventFunc(ef func(db.Event)) {
 // Put stores a value
 func (kv *KV) Put(k string, v []byte) error {
 	kv.Lock()
-	kv.l.Trace("PUT", "key", k, "value", v)
+	kv.l.Trace("PUT", "key", k)
 	kv.m[k] = v
 	kv.Unlock()
 
@@ -82,7 +82,7 @@ func (kv *KV) Get(k string) ([]byte, error) {
 		kv.l.Trace("NoValue", "key", k)
 		return nil, db.ErrNoValue
 	}
-	kv.l.Trace("GET", "key", k, "value", v)
+	kv.l.Trace("GET", "key", k)
 	return v, nil
 }
 
-- 
2.43.0

