From 9dc18cef0b9a468e4b808d6622243f14bba7d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 01/23] verif hooks: access to undo and redo under the verif
 build tag

---
 pkg/app/verif_hooks.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)
 create mode 100644 pkg/app/verif_hooks.go

diff --git a/pkg/app/verif_hooks.go b/pkg/app/verif_hooks.go
new file mode 100644
index 0000000..f5020d0
--- /dev/null
+++ b/pkg/app/verif_hooks.go
@@ -0,0 +1,19 @@
+//go:build verif
+
+package app
+
+// VerifUndo and VerifRedo give the verification harness access to the unexported undo and redo of an App.
+// They return the first error among the results, if any.
+
+func VerifUndo(a App) error { return verifFirstErr(a.(*app).undo()) }
+
+func VerifRedo(a App) error { return verifFirstErr(a.(*app).redo()) }
+
+func verifFirstErr(results ...any) error {
+	for _, r := range results {
+		if err, ok := r.(error); ok && err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From b748089a25a8030234f9d5575515433cc369d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 02/23] fix: moving an item in the tree updates its parent and
 refuses cycles

AddOrMove left the parent pointer of the moved node as it was, so Parent was stale, a second move or a
free left the item in two places, and an item could be nested under its own contents.
---
 pkg/world/tree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..ba5597f 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,9 +152,12 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
+		if node.Has(t.Item().Id, false) {
+			return errors.New("cannot move Item into its own components").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
-		t.components.Add(node)
+		t.adopt(node)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -257,6 +260,14 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// adopt adds the given Tree to the components of this tree, and makes this tree its parent.
+func (t *tree) adopt(c Tree) {
+	if node, ok := c.(*tree); ok {
+		node.parent = t
+	}
+	t.components.Add(c)
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
-- 
2.43.0


From 3a56a518d71c9c4a628f149b06de81f6a99740ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 03/23] fix: deleting an item from the tree makes its parent
 the parent of its components

Delete left the components pointing at the deleted node, and deleting the root item of a tree moved its
components into the shared empty tree.
---
 pkg/world/tree.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index ba5597f..abf1c41 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -206,11 +206,22 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
-	foundComponents := found.Components().ToSlice()
-	found.Parent().Components().Remove(found)
+	node, ok := found.(*tree)
+	if !ok {
+		return
+	}
+	if node.parent == nil {
+		// The root has no parent to transfer Components to. They stay at the top.
+		node.item = nil
+		return
+	}
+	foundComponents := node.components.ToSlice()
+	node.parent.components.Remove(node)
 	for _, c := range foundComponents {
-		found.Parent().Components().Add(c)
+		node.parent.adopt(c)
 	}
+	node.parent = nil
+	node.components.Clear()
 }
 
 func (t *tree) GetDescendantIds(id string) []string {
-- 
2.43.0


From 14434a316a2d0aa5ace1ff900dff7878c8129097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 04/23] fix: attribute changes reach every copy of an item, and
 create hands back the created thing

ItemSet left the copies of the item in the tree and at the ends of relationships as they were, so the
world's text, a saved world and the components view lost attributes. ItemCreate and RelCreate put an
item without its attributes in the tree and handed back one without attributes.
---
 pkg/world/world.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..a14fb78 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,11 +325,12 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
-		Id: id,
+	item, err := itemSet(Item{Id: id}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
-	w.ItemSet(id, params) // After we set in the tracking map on World.
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
@@ -383,9 +384,11 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
 	w.latestItem = &item
+	w.syncItem(item)
 	return w
 }
 
@@ -467,12 +470,12 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 		}
 		return w
 	}
-	rel := Rel{
-		From: fromItem,
-		To:   toItem,
+	rel, err := relSet(Rel{From: fromItem, To: toItem}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Rels[rel.id()] = rel
-	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
 	w.latestRel = &rel
 	return w
 }
@@ -716,6 +719,24 @@ func equalRelParams(existing Rel, params RelParams) error {
 	return nil
 }
 
+// syncItem updates the copies of the given Item in the Tree and at the ends of every Rel.
+func (w *world) syncItem(item Item) {
+	if found, ok := w.Tree.Find(item.Id); ok {
+		if node, ok := found.(*tree); ok {
+			node.item = &item
+		}
+	}
+	for k, rel := range w.Rels {
+		if rel.From.Id == item.Id {
+			rel.From = item
+		}
+		if rel.To.Id == item.Id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
+}
+
 // resetLatestTrackers resets the latestItem, latestRel, and latestErr fields.
 // We do this before every operation to ensure that we don't accidentally return stale values
 // from our Item() and Rel() methods.
-- 
2.43.0


From 2bc66e79c2bf3042835866efec71db9c0d5fe53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 05/23] fix: item types are accepted by name and an unknown one
 changes nothing

Every set of a named type was refused after applying part of the attributes, clearing the type was
refused, and undoing a set failed because it restores the type by name.
---
 pkg/world/world.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index a14fb78..1ff666e 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -393,7 +393,13 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 }
 
 func itemSet(item Item, params ItemParams) (Item, error) {
-	errs := make([]error, 0)
+	if params.Type != nil {
+		itemType, ok := itemTypeFromParam(*params.Type)
+		if !ok {
+			return item, errors.New("error setting Item params").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "type", Value: *params.Type})
+		}
+		item.Type = itemType
+	}
 	if params.Name != nil {
 		item.Name = *params.Name
 	}
@@ -403,22 +409,25 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 	if params.External != nil {
 		item.External = *params.External
 	}
-	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
-		} else {
-			errs = append(errs, err)
-		}
-	}
 	if params.Mechanism != nil {
 		item.Mechanism = *params.Mechanism
 	}
-	if len(errs) > 0 {
-		return item, errors.New("error setting Item params").UseCode(errors.TopolithErrorConflict).WithError(errs...)
-	}
 	return item, nil
 }
 
+// itemTypeFromParam returns the ItemType for its name, its number, or the empty string for no type.
+// The okay boolean is false if there is no such ItemType.
+func itemTypeFromParam(s string) (ItemType, bool) {
+	if s == "" {
+		return 0, true
+	}
+	if n, err := strconv.Atoi(s); err == nil {
+		return ItemType(n), n >= 0 && n <= int(Code)
+	}
+	itemType := ItemTypeFromString(s)
+	return itemType, itemType != 0
+}
+
 func (w *world) ItemParent(childId string) (Item, bool) {
 	w.resetLatestTrackers()
 	tree, ok := w.Tree.Find(childId)
@@ -684,7 +693,7 @@ func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !sameItemType(existing.Type, *params.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
@@ -700,6 +709,11 @@ func equalItemParams(existing Item, params ItemParams) error {
 	return nil
 }
 
+func sameItemType(t ItemType, param string) bool {
+	itemType, ok := itemTypeFromParam(param)
+	return ok && itemType == t
+}
+
 func equalRelParams(existing Rel, params RelParams) error {
 	if (params.Verb != nil && *params.Verb != existing.Verb) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) ||
-- 
2.43.0


From 1f57edf755ff1bf02d8bb1276ad68969925fe87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 06/23] fix: the relationships-to and relationships-from
 queries

RelFrom compared relationship keys with item identifiers and never found anything, and both queries
had the strict flag inverted.
---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 1ff666e..dd77f72 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -518,7 +518,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -532,11 +532,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 0e08798c89e0199ee597dd5979e8bf841f7caa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 07/23] fix: relationships of different pairs of items never
 share an entry

The key joined the identifiers with a separator that identifiers can contain.
---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..10307a5 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,8 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	// Quoted, because the separator can be part of an Item ID.
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId)
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From d9fbcc6ff58d02da546f3b6ce864b17cc444a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 08/23] fix: the delete command for relationships uses both of
 the named items

It looked up, and on undo created, the relationship of the first item with itself.
---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 9fa63b9864973d2f6cc82c404ebad8410391bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 09/23] fix: creating a relationship that exists hands back the
 existing one

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..b355b44 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -450,7 +450,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From 12323666d1f85a134fef985291c6ed8c0f5fc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 10/23] fix: nest reports impossible moves, and nest and free
 can be undone

The commands dropped the old parents, so undoing them did nothing, and nest ignored a missing parent.
---
 pkg/app/command.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index b355b44..f029bf1 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -279,13 +279,19 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
+		if _, seen := oldParentIds[id]; !seen {
+			oldParentIds[id] = oldParentId // Empty string if root.
+		}
+		if c.ParentId != "" && oldParentId == c.ParentId {
 			noNest[id] = true
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			noNest[id] = true
+			errs = append(errs, err)
+		}
 	}
+	c.oldParentIds, c.noNest = oldParentIds, noNest
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
 	}
@@ -320,9 +326,12 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
+		if _, seen := oldParentIds[id]; !seen {
+			oldParentIds[id] = oldParentId // Empty string if root.
+		}
 		w.Free(id)
 	}
+	c.oldParentIds = oldParentIds
 
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
-- 
2.43.0


From 8b631eae4b825a76a10bc7d0964957407eff1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 11/23] fix: undoing the delete of an item restores its
 placement, contents and relationships

---
 pkg/app/command.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index f029bf1..860f802 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams     world.ItemParams
+	oldParentId   string
+	oldComponents []string
+	oldRels       []world.Rel
+	noDelete      bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponents, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,26 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, id := range c.oldComponents {
+		if err := w.Nest(id, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From f8097e9164520545ba1032c11993ea9ce03eb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 12/23] fix: undoing a create that failed does nothing

It deleted the item with the empty identifier, whose error wiped the history.
---
 pkg/app/command.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 860f802..1b57880 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -131,7 +131,9 @@ func (c *ItemCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 		c.noCreate = true
 		return item, nil
 	}
-	return w.ItemCreate(c.Id, c.Params).Item()
+	item, err := w.ItemCreate(c.Id, c.Params).Item()
+	c.noCreate = err != nil
+	return item, err
 }
 
 func (c *ItemCreateCommand) Undo(w world.World) error {
@@ -400,7 +402,9 @@ func (c *ItemCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error)
 		c.noCreate = true
 		return item, nil
 	}
-	return w.ItemCreate(c.Id, world.ItemParams{}).Item()
+	item, err := w.ItemCreate(c.Id, world.ItemParams{}).Item()
+	c.noCreate = err != nil
+	return item, err
 }
 
 func (c *ItemCreateOrFetchCommand) Undo(w world.World) error {
@@ -416,6 +420,7 @@ type ItemCreateOrSetCommand struct {
 	Params    world.ItemParams
 	oldParams world.ItemParams
 	noCreate  bool
+	noSet     bool
 }
 
 func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -428,10 +433,15 @@ func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
 		c.oldParams.Expanded = strPtr(item.Expanded)
 		return w.ItemSet(c.Id, c.Params).Item()
 	}
-	return w.ItemCreate(c.Id, c.Params).Item()
+	item, err := w.ItemCreate(c.Id, c.Params).Item()
+	c.noCreate, c.noSet = err != nil, err != nil
+	return item, err
 }
 
 func (c *ItemCreateOrSetCommand) Undo(w world.World) error {
+	if c.noSet {
+		return nil
+	}
 	if c.noCreate {
 		return w.ItemSet(c.Id, c.oldParams).Err()
 	}
-- 
2.43.0


From 94824ee3c2e5eea758cb329c3304bf9416589f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 13/23] fix: redo re-applies the undone command, and a new
 command discards undone ones

---
 pkg/app/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..3ea3d40 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -24,6 +24,7 @@ func NewApp(world world.World) (App, error) {
 	return &app{
 		world:       world,
 		commands:    make([]Command, 0),
+		failed:      make([]bool, 0),
 		commandsIdx: -1,
 		persistence: persistence.NewFilePersistence(),
 	}, nil
@@ -33,6 +34,7 @@ func NewApp(world world.World) (App, error) {
 type app struct {
 	world       world.World // world is the world.World associated with this App.
 	commands    []Command   // commands is a list of Command that have been executed.
+	failed      []bool      // failed tells for each of the commands whether it returned an error when it was first executed.
 	commandsIdx int         // commandsIdx is the index of the last executed Command in the commands list. It must initialize to -1.
 	persistence persistence.Persistence
 }
@@ -87,9 +89,12 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	// A new Command replaces any Command that was undone before it.
+	h.commands = append(h.commands[:h.commandsIdx+1:h.commandsIdx+1], c)
 	h.commandsIdx++
-	return c.Execute(h.world)
+	o, err := c.Execute(h.world)
+	h.failed = append(h.failed[:h.commandsIdx], err != nil)
+	return o, err
 }
 
 func (h *app) undo() (error, int) {
@@ -111,8 +116,8 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
-	if err != nil {
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
+	if err != nil && !h.failed[h.commandsIdx+1] {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
 		h.commands = make([]Command, 0)
-- 
2.43.0


From 3d375cb9e981c0a223dc6c91524882db00c2d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 14/23] fix: 'item in' lists the components of the named item

---
 pkg/app/command.go         | 3 +++
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 3 ++-
 pkg/grammar/main.go        | 1 +
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 1b57880..ab89d6c 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -770,6 +770,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if input.Components {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..9bcabc6 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -65,7 +65,7 @@ FetchQuery
 ListQuery
   <- (Item / Rel ) List Limit?
   # Get all Items under this one in the Tree.
-  / Item IN Identifier  { p.InputAttributes.Verb = "list" }
+  / Item IN Identifier  { p.InputAttributes.Verb = "list"; p.InputAttributes.Components = true }
   / ToQuery Identifier
   / FromQuery Identifier
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..3fc48b8 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -634,6 +634,7 @@ func (p *Parser) Execute() {
 			p.InputAttributes.Verb = "fetch"
 		case ruleAction4:
 			p.InputAttributes.Verb = "list"
+			p.InputAttributes.Components = true
 		case ruleAction5:
 			p.InputAttributes.Verb = "create-or-fetch"
 		case ruleAction6:
@@ -5324,7 +5325,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 126 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list"; p.InputAttributes.Components = true }> */
 		nil,
 		/* 128 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
 		nil,
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..fdb0227 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -23,6 +23,7 @@ type InputAttributes struct {
 	Verb         string            `json:"verb"`
 	Params       map[string]string `json:"params"`
 	Flags        []string          `json:"flags"`
+	Components   bool              `json:"components"` // Components is whether a list is limited to the components of ResourceId.
 
 	Raw string `json:"raw"`
 }
-- 
2.43.0


From ad3a4f651941904a5669a866d995e3b38372660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 15/23] fix: equality does not depend on the order of
 relationships or components

---
 pkg/world/tree.go  | 2 +-
 pkg/world/world.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index abf1c41..42597ff 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -73,7 +73,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index dd77f72..e6e2ebf 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,9 +214,15 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
+		if rels1[i].From.Id == rels1[j].From.Id {
+			return rels1[i].To.Id < rels1[j].To.Id
+		}
 		return rels1[i].From.Id < rels1[j].From.Id
 	})
 	sort.Slice(rels2, func(i, j int) bool {
+		if rels2[i].From.Id == rels2[j].From.Id {
+			return rels2[i].To.Id < rels2[j].To.Id
+		}
 		return rels2[i].From.Id < rels2[j].From.Id
 	})
 	for i, rel1 := range rels1 {
-- 
2.43.0


From 62a87c5bc04062876c537fd6cad0ae373beaff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 16/23] fix: quoted identifiers with spaces in nest and free

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/grammar/main.go        | 17 +++++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 9bcabc6..9b54c0a 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,7 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
+    ids := splitIdentifiers(text)
     for _, id := range ids {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 3fc48b8..92271ec 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -700,7 +700,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
+			ids := splitIdentifiers(text)
 			for _, id := range ids {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
@@ -5381,7 +5381,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
+		   ids := splitIdentifiers(text)
 		   for _, id := range ids {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index fdb0227..b48a402 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -71,6 +71,23 @@ func Parse(s string) (*Parser, error) {
 
 // --- INTERNAL ---
 
+// splitIdentifiers splits the text of an IdentifierList to the text of each Identifier.
+// White space inside QuotedText is part of the Identifier.
+func splitIdentifiers(s string) []string {
+	ids := make([]string, 0)
+	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
+		end := 0
+		if s[0] == '"' {
+			end = strings.IndexByte(s[1:], '"') + 2
+		} else if end = strings.IndexAny(s, "\" \t\r\n"); end < 0 {
+			end = len(s)
+		}
+		ids = append(ids, s[:end])
+		s = s[end:]
+	}
+	return ids
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From 63d6ced868d040a6ac8b9afb6d2666cacb1716b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 17/23] fix: deriving errors never changes the original, and
 the status message ends before wrapped errors

---
 pkg/errors/main.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..02c282f 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...)
 	return e
 }
 
@@ -47,8 +50,11 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
+	e.errs = slices.Clip(e.errs)
 	for _, err := range errs {
-		e.errs = append(e.errs, err)
+		if err != nil {
+			e.errs = append(e.errs, err)
+		}
 	}
 	return e
 }
@@ -77,7 +83,7 @@ func (e TopolithError) String() string {
 			}
 			errStrings = append(errStrings, err.Error())
 		}
-		return fmt.Sprintf(`%d error "%s: %s" errors=[%s]`, e.Code, e.Description, e.Message, fmt.Sprintf(`"%s"`, errStrings))
+		return fmt.Sprintf(`%d error "%s: %s"; errors=[%s]`, e.Code, e.Description, e.Message, fmt.Sprintf(`"%s"`, errStrings))
 	}
 	return fmt.Sprintf(`%d error "%s: %s"`, e.Code, e.Description, e.Message)
 }
-- 
2.43.0


From bb01a735acb637799525c9ec816660876449243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 18/23] fix: world and tree text ends where the sentence ends

---
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 9b54c0a..ec84fd5 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -27,7 +27,7 @@ type Parser Peg {
 }
 
 Valid
-  <- Command / Response / WorldObject / Tree / StatusObject
+  <- Command / Response / WorldObject END / Tree END / StatusObject
 
 Response
   <- Objects? _ DELIMITER DELIMITER _ StatusObject END
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 92271ec..9934cb8 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -886,7 +886,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 
 	_rules = [...]func() bool{
 		nil,
-		/* 0 Valid <- <(Command / Response / ((&('t') Tree) | (&('\t' | '\n' | '\r' | ' ' | '$') WorldObject) | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') StatusObject)))> */
+		/* 0 Valid <- <(Command / Response / ((&('t') (Tree END)) | (&('\t' | '\n' | '\r' | ' ' | '$') (WorldObject END)) | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') StatusObject)))> */
 		func() bool {
 			position0, tokenIndex0 := position, tokenIndex
 			{
@@ -1837,10 +1837,16 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 							if !_rules[ruleTree]() {
 								goto l0
 							}
+							if !_rules[ruleEND]() {
+								goto l0
+							}
 						case '\t', '\n', '\r', ' ', '$':
 							if !_rules[ruleWorldObject]() {
 								goto l0
 							}
+							if !_rules[ruleEND]() {
+								goto l0
+							}
 						default:
 							if !_rules[ruleStatusObject]() {
 								goto l0
-- 
2.43.0


From 95859f9b67f882594ad593b6a4b7b6a77a7691e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 19/23] fix: reading tree text keeps every item, and refuses
 text that is not one tree

---
 pkg/grammar/grammar.peg    |  4 ++++
 pkg/grammar/grammar.peg.go |  5 +++++
 pkg/world/tree.go          | 29 +++++++++++++++++++++--------
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index ec84fd5..aa185cb 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -22,6 +22,9 @@ type Parser Peg {
     currentId string // Current Identifier being parsed.
     nodeStack []Node // Stack of nodes for building the tree.
 
+    RootNil   bool // Whether the root of the Tree has no Item.
+    NestedNil bool // Whether any other part of the Tree has no Item.
+
     // For parsing World.
     WorldParams map[string]string
 }
@@ -118,6 +121,7 @@ Tree
 Nil <- 'nil'
     {
       p.currentId = "nil"
+      p.RootNil, p.NestedNil = p.RootNil || len(p.nodeStack) == 0, p.NestedNil || len(p.nodeStack) > 0
       p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
     }
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 9934cb8..a1b7c5f 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -512,6 +512,9 @@ type Parser struct {
 	currentId string // Current Identifier being parsed.
 	nodeStack []Node // Stack of nodes for building the tree.
 
+	RootNil   bool // Whether the root of the Tree has no Item.
+	NestedNil bool // Whether any other part of the Tree has no Item.
+
 	// For parsing World.
 	WorldParams map[string]string
 
@@ -680,6 +683,7 @@ func (p *Parser) Execute() {
 		case ruleAction12:
 
 			p.currentId = "nil"
+			p.RootNil, p.NestedNil = p.RootNil || len(p.nodeStack) == 0, p.NestedNil || len(p.nodeStack) > 0
 			p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 
 		case ruleAction13:
@@ -5367,6 +5371,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 135 Action12 <- <{
 		   p.currentId = "nil"
+		   p.RootNil, p.NestedNil = p.RootNil || len(p.nodeStack) == 0, p.NestedNil || len(p.nodeStack) > 0
 		   p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 		 }> */
 		nil,
diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 42597ff..4aac813 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -5,6 +5,7 @@ import (
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"maps"
 	"sort"
 	"strings"
 )
@@ -36,7 +37,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
@@ -44,6 +45,10 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		return nil, map[string]Item{}, errors.New("error parsing Tree").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.StmtType != "Tree" || p.NestedNil {
+		return nil, map[string]Item{}, errors.New("text is not a Tree of Items").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	itemMap := make(map[string]Item)
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -53,8 +58,12 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
-	return t, itemMap, err
+	// The conversion takes each Item out of the map that it works on.
+	t, err := convertNodeToTree(p.Tree, maps.Clone(itemMap), nil, p.RootNil)
+	if err != nil {
+		return nil, itemMap, err
+	}
+	return t, itemMap, nil
 }
 
 func TreeEqual(t1, t2 Tree) bool {
@@ -88,24 +97,24 @@ func TreeEqual(t1, t2 Tree) bool {
 	return true
 }
 
-// convertNodeToTree recursively converts a grammar.Node to a Tree.
-func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
+// convertNodeToTree recursively converts a grammar.Node to a Tree. A nil node has no Item.
+func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree, isNil bool) (*tree, error) {
 	var itemPtr *Item
-	if parent != nil {
+	if !isNil {
 		item, ok := itemMap[node.Id]
 		if !ok {
 			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
+		delete(itemMap, node.Id) // Prevent cycles.
 	}
-	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
 		item:       itemPtr,
 		components: mapset.NewSet[Tree](),
 		parent:     parent,
 	}
 	for _, childNode := range node.Children {
-		childTree, err := convertNodeToTree(childNode, itemMap, t)
+		childTree, err := convertNodeToTree(childNode, itemMap, t, false)
 		if err != nil {
 			return t, err
 		}
@@ -143,6 +152,10 @@ func (t *tree) String() string {
 }
 
 func (t *tree) AddOrMove(item *Item) error {
+	if t == emptyTree {
+		// The parent of every root is the same empty Tree, and stays empty.
+		return errors.New("cannot add Item to the parent of a root").UseCode(errors.TopolithErrorInvalid)
+	}
 	if item == nil {
 		return errors.New("cannot add nil Item to Tree").UseCode(errors.TopolithErrorInvalid)
 	}
-- 
2.43.0


From 7233e0ca320bc932bcd53cf36460efc6b45ec515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 20/23] fix: reading world text keeps every name and item, and
 refuses text that is not one world

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/world/world.go         | 35 ++++++++++++++++++++++++++++++-----
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index aa185cb..1c6296d 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -166,7 +166,7 @@ ItemParams  <- (ItemParam)+
 RelParams   <- (RelParam)+
 
 WorldParamVersion <- VERSION EQUALS <Number>        { p.WorldParams["version"] = cleanString(text) }
-WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = cleanString(text) }
+WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = strings.TrimSpace(text) }
 WorldParamName    <- NAME EQUALS <StringLike?>       { p.WorldParams["name"] = strings.TrimSpace(text) }
 WorldParamExpanded <- EXPANDED EQUALS <StringLike?> { p.WorldParams["expanded"] = strings.TrimSpace(text) }
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index a1b7c5f..7334d29 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -716,7 +716,7 @@ func (p *Parser) Execute() {
 		case ruleAction20:
 			p.WorldParams["version"] = cleanString(text)
 		case ruleAction21:
-			p.WorldParams["id"] = cleanString(text)
+			p.WorldParams["id"] = strings.TrimSpace(text)
 		case ruleAction22:
 			p.WorldParams["name"] = strings.TrimSpace(text)
 		case ruleAction23:
@@ -5404,7 +5404,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 143 Action20 <- <{ p.WorldParams["version"] = cleanString(text) }> */
 		nil,
-		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text) }> */
+		/* 144 Action21 <- <{ p.WorldParams["id"] = strings.TrimSpace(text) }> */
 		nil,
 		/* 145 Action22 <- <{ p.WorldParams["name"] = strings.TrimSpace(text) }> */
 		nil,
diff --git a/pkg/world/world.go b/pkg/world/world.go
index e6e2ebf..c6453a6 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,16 +97,20 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	if p.StmtType != "WorldObject" || p.NestedNil {
+		return nil, errors.New("text is not a World").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
+	w := CreateWorld(unquote(p.WorldParams["name"]))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
+	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
 		w.SetVersion(version)
 	}
 	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
+		w.SetId(unquote(p.WorldParams["id"]))
 	}
 	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
+		w.SetExpanded(unquote(p.WorldParams["expanded"]))
 	}
 
 	for _, itemStr := range p.ItemStrings {
@@ -114,6 +118,9 @@ func FromString(s string) (World, error) {
 		if err != nil {
 			return nil, err
 		}
+		if _, ok := w.ItemFetch(item.Id); ok {
+			return nil, errors.New("Item is in the World twice").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
 		w.ItemCreate(item.Id, ItemParams{
 			Name:      strPtr(item.Name),
 			Expanded:  strPtr(item.Expanded),
@@ -121,6 +128,9 @@ func FromString(s string) (World, error) {
 			Type:      strPtr(strconv.Itoa(int(item.Type))),
 			Mechanism: strPtr(item.Mechanism),
 		})
+		if err := w.Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	// We added our items, but they all sit at Tree root. We need to nest them properly.
@@ -130,6 +140,13 @@ func FromString(s string) (World, error) {
 		parentId string
 	}
 	stack := []queueItem{{p.Tree, ""}}
+	if p.RootNil {
+		// The root has no Item, so what is in the root is in no other Item.
+		stack = stack[:0]
+		for _, child := range p.Tree.Children {
+			stack = append(stack, queueItem{child, ""})
+		}
+	}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
@@ -152,6 +169,9 @@ func FromString(s string) (World, error) {
 			Async:     boolPtr(rel.Async),
 			Expanded:  strPtr(rel.Expanded),
 		})
+		if err := w.Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	return w, nil
@@ -271,7 +291,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
@@ -766,6 +786,11 @@ func (w *world) resetLatestTrackers() {
 	w.latestErr = nil
 }
 
+// unquote removes the quotes from text that might be quoted.
+func unquote(s string) string {
+	return strings.Trim(s, "\"")
+}
+
 func strPtr(s string) *string {
 	return &s
 }
-- 
2.43.0


From 63fb56adaaf047555d2566bb7fa977297dfa922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 21/23] fix: a save that fails part-way keeps the previously
 saved world

---
 pkg/persistence/main.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..3601801 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,31 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return writeFile(filePath, []byte(data), 0644)
+}
+
+// writeFile writes a file that appears under its name only when it is complete.
+// If anything fails, a file that was there before is still there as it was.
+func writeFile(filePath string, data []byte, perm os.FileMode) error {
+	f, err := os.CreateTemp(filepath.Dir(filePath), ".topolith-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name()) // After the rename there is nothing to remove.
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filePath)
 }
 
 // Load loads a world from a file.
-- 
2.43.0


From c458fd9ba3dcef4913c7fb38a269a62ce3f02635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 22/23] fix: a saved world whose name ends in .world loads by
 its name

---
 pkg/persistence/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 3601801..5d2f418 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -76,8 +76,10 @@ func writeFile(filePath string, data []byte, perm os.FileMode) error {
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
 	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	savedPath := filepath.Join(fp.directory, name+".world")
+	// The name of a saved world can end like the name of a file.
+	if _, err := os.Stat(savedPath); err == nil || filepath.Ext(name) != ".world" {
+		filePath = savedPath
 	}
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-- 
2.43.0


From 136992081f939ec3c8f55dfb4344596512bd1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:23 +0000
Subject: [PATCH 23/23] fix: refuse text that is not an Item or Rel when
 reading one

ItemFromString made up an Item from any other command or reply, and RelFromString
panicked on text that names no second Item.
---
 pkg/world/item.go | 3 +++
 pkg/world/rel.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/world/item.go b/pkg/world/item.go
index 325a1e3..f54819f 100644
--- a/pkg/world/item.go
+++ b/pkg/world/item.go
@@ -113,6 +113,9 @@ func ItemFromString(s string) (Item, error) {
 	if err != nil {
 		return Item{}, errors.New("error parsing Item").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if in := p.InputAttributes; in.ResourceType != "item" || (in.Verb != "create-or-fetch" && in.Verb != "create-or-set") || in.ResourceId == "" {
+		return Item{}, errors.New("text is not an Item").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	return itemSet(Item{Id: p.InputAttributes.ResourceId}, ItemParamsFromInput(p.InputAttributes))
 }
 
diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 10307a5..2f3ff5f 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -49,6 +49,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if in := p.InputAttributes; in.ResourceType != "rel" || (in.Verb != "create-or-fetch" && in.Verb != "create-or-set") {
+		return Rel{}, errors.New("text is not a Rel").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
-- 
2.43.0

