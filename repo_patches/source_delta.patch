From 8d061576262d42f39a640485ae7b3a2bed522331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 01/26] fix: ctree.GetLeaf returns nil when path points to a
 branch

---
 cache/cache.go | 2 +-
 ctree/tree.go  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..53f4c26 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -531,7 +531,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 	}
 	// Update an existing leaf.
-	if oldval := t.t.GetLeaf(path); oldval != nil {
+	if oldval := (*ctree.Leaf)(t.t.Get(path)); oldval != nil {
 		// An update with corrupt data is possible to visit a node that does not
 		// contain *pb.Notification. Thus, need type assertion here.
 		old, ok := oldval.Value().(*pb.Notification)
diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..25da389 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -220,7 +220,11 @@ func (t *Tree) GetLeafValue(path []string) interface{} {
 // GetLeaf returns the leaf node if path points to a leaf in t, nil otherwise. All
 // nodes in path must be fully specified with no globbing (*).
 func (t *Tree) GetLeaf(path []string) *Leaf {
-	return (*Leaf)(t.Get(path))
+	n := t.Get(path)
+	if n.IsBranch() {
+		return nil
+	}
+	return (*Leaf)(n)
 }
 
 // VisitFunc is a callback func triggered on leaf values by Query and Walk.
-- 
2.43.0


From eca1ea2d54431064b86608941fea2a151e1bf061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 02/26] fix: ctree delete matches exactly what a query for the
 same path matches

A delete on an empty tree no longer reports (nor passes to the callbacks) a
removed nil leaf, and a path that continues past a leaf no longer removes it.
---
 ctree/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 25da389..4907915 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -369,10 +369,17 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
+			if len(subpath) > 1 && !t.isBranch() {
+				// The subpath continues past a leaf, it doesn't match anything.
+				return false, nil
+			}
 			subpath = subpath[1:]
 		}
 		// The subpath is a full path to a leaf.
 		switch b := t.leafBranch.(type) {
+		case nil:
+			// The Tree is empty, there is nothing to delete.
+			return false, nil
 		case branch:
 			// The subpath terminates in a branch node and will recursively delete any
 			// progeny leaves.
-- 
2.43.0


From d776768a958211bf72b0219a9fae37546ea95c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 03/26] fix: ctree delete locks the nodes it reads below the
 root

A delete read and discarded nodes while holding only the root lock, racing
with updates made through a retained Leaf.
---
 ctree/tree.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 4907915..3bfea55 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -366,6 +366,10 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 // a slice of subpaths ([]string) for all leaves deleted thus far if
 // retDeletedPaths is true. If retDeletedPaths is false, the returned slice
 // of subpaths is nil.
+//
+// The caller must hold the write lock on t. The lock on every node below is
+// taken while descending, since a Leaf retained from an earlier lookup can be
+// read and updated without holding the lock of any of its ancestors.
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
@@ -385,7 +389,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
-				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				del, leaves := v.lockedDelete(subpath, condition, f, retDeletedPaths)
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -413,7 +417,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
-			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			delBr, allLeaves := br.lockedDelete(subpath[1:], condition, f, retDeletedPaths)
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
@@ -437,6 +441,13 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	return false, nil
 }
 
+// lockedDelete calls internalDelete while holding the write lock on t.
+func (t *Tree) lockedDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	return t.internalDelete(subpath, condition, f, retDeletedPaths)
+}
+
 // DeleteConditional removes all leaves at or below subpath as well as any
 // ancestors with no children for those leaves which the given conditional
 // function returns true, returning the list of all leaves removed.
-- 
2.43.0


From ad988f76b897fc6a0ab036999a986d37225f5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 04/26] fix: offer a notification once to a subscriber that
 matches it by several paths

---
 subscribe/subscribe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..41df1d6 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,9 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client may match the notification through several of its queries, even
+	// when the notification contains a single path.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From f3734bdb349f54d88c3663f74285d6ac4c89df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 05/26] fix: queries of a subscription do not share their
 backing array

---
 subscribe/subscribe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 41df1d6..b8c355f 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -222,6 +222,9 @@ func (s *Server) updateTypeCounts(typ string) func() {
 func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (remove func()) {
 	var removes []func()
 	prefix := path.ToStrings(s.Prefix, true)
+	// The queries are kept until their removal: appending to prefix must not
+	// make them share its backing array.
+	prefix = prefix[:len(prefix):len(prefix)]
 	for _, sub := range s.Subscription {
 		p := sub.GetPath()
 		if p == nil {
-- 
2.43.0


From f1344690649f5fe9570102f2cd11d0e35737e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 06/26] fix: stream updates for a subscription without a path

---
 subscribe/subscribe.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index b8c355f..1a0cc13 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -226,10 +226,9 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	// make them share its backing array.
 	prefix = prefix[:len(prefix):len(prefix)]
 	for _, sub := range s.Subscription {
+		// An absent path selects everything below the prefix, as it does when the
+		// cache is queried.
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		query := prefix
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
 			query = append(prefix, origin)
-- 
2.43.0


From ed740e3772eb84ca540799417662f53cfb9ecb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 07/26] fix: cache deletes announce the path of the leaf and
 leave notifications unmodified

---
 cache/cache.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 53f4c26..c26310a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -614,13 +614,33 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: joinElems(pathElems(prefix), pathElems(path))}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		d.Delete = []*pb.Path{{Element: joinElems(prefix.GetElement(), path.GetElement())}}
 	}
 	return d
 }
 
+// pathElems returns the elements of p, including when they are only provided
+// by the deprecated Element field.
+func pathElems(p *pb.Path) []*pb.PathElem {
+	if len(p.GetElem()) > 0 {
+		return p.GetElem()
+	}
+	pe := make([]*pb.PathElem, 0, len(p.GetElement()))
+	for _, e := range p.GetElement() {
+		pe = append(pe, &pb.PathElem{Name: e})
+	}
+	return pe
+}
+
+// joinElems returns a new slice with the content of a and b, none of which may
+// be modified as they belong to a notification in the cache.
+func joinElems[T any](a, b []T) []T {
+	j := make([]T, 0, len(a)+len(b))
+	return append(append(j, a...), b...)
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if path[0] == metadata.Root {
-- 
2.43.0


From 2d191338a83c9b584c1f6c418eec3ea1e400cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 08/26] fix: an update that replaces an atomic group is not
 suppressed

---
 cache/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c26310a..5b70a61 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -568,8 +568,9 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
-		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		// Simulate event-driven for all non-atomic updates. An update that replaces
+		// an atomic group is always a change.
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From f9c2bbfd2914dbfdfe6787f8d0bb6713993b6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 09/26] fix: cache rejects or processes empty paths, missing
 values and foreign metadata values instead of panicking

---
 cache/cache.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 5b70a61..e332123 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -504,26 +504,32 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		suffix = nil
 	}
 	path := joinPrefixAndPath(n.Prefix, suffix)
+	if len(path) == 0 {
+		return nil, errors.New("update has an empty path")
+	}
 	if path[0] == metadata.Root {
+		if len(path) == 1 {
+			return nil, fmt.Errorf("update of the root of the metadata: %q", path)
+		}
 		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -644,7 +650,7 @@ func joinElems[T any](a, b []T) []T {
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -701,6 +707,14 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// sameValue reports whether prev, the value of a leaf in the cache if any, is a
+// notification with the value of noti. The leaf may have been set by the target
+// to a value of any type.
+func sameValue(prev interface{}, noti *pb.Notification) bool {
+	p, ok := prev.(*pb.Notification)
+	return ok && value.Equal(p.Update[0].GetVal(), noti.Update[0].GetVal())
+}
+
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -712,8 +726,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
-			noti := metaNotiBool(t.name, value, v)
+		noti := metaNotiBool(t.name, value, v)
+		if !sameValue(prev, noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -732,8 +746,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
-			noti := metaNotiInt(t.name, value, v)
+		noti := metaNotiInt(t.name, value, v)
+		if !sameValue(prev, noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -752,8 +766,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
-			noti := metaNotiStr(t.name, value, v)
+		noti := metaNotiStr(t.name, value, v)
+		if !sameValue(prev, noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -786,7 +800,9 @@ func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	p := path.ToStrings(pr, true)
 	p = append(p, path.ToStrings(ph, false)...)
 	// remove the prepended target name
-	p = p[1:]
+	if pr.GetTarget() != "" {
+		p = p[1:]
+	}
 	return p
 }
 
-- 
2.43.0


From 92bf522d510c16e4b860cc24bf2598fc4374e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 10/26] fix: deleted metadata leaves are not counted as deleted
 target leaves

---
 cache/cache.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index e332123..2fbb465 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -498,12 +498,7 @@ func (t *Target) resetTimestamp() {
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	realData := true
-	suffix := n.Update[0].Path
-	// If the notification is an atomic group of updates, store them under the prefix only.
-	if n.Atomic {
-		suffix = nil
-	}
-	path := joinPrefixAndPath(n.Prefix, suffix)
+	path := leafPath(n)
 	if len(path) == 0 {
 		return nil, errors.New("update has an empty path")
 	}
@@ -654,15 +649,15 @@ func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64 // number of leaves deleted, excluding metadata
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
+		if p := leafPath(d); p[0] != metadata.Root {
+			deleted++
+		}
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
-	if len(leaves) == 0 {
-		return nil
-	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
@@ -794,6 +789,16 @@ func (t *Target) Reset() {
 	}
 }
 
+// leafPath returns the path of the leaf that stores n, which has an update.
+func leafPath(n *pb.Notification) []string {
+	suffix := n.Update[0].Path
+	// If the notification is an atomic group of updates, store them under the prefix only.
+	if n.Atomic {
+		suffix = nil
+	}
+	return joinPrefixAndPath(n.Prefix, suffix)
+}
+
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	// <target> and <origin> are only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
-- 
2.43.0


From 074c894867fe3d8fa2bec0eda133bc76d3e065ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 11/26] fix: every accepted target update counts for the latest
 timestamp

---
 cache/cache.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 2fbb465..18a23a5 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -479,6 +465,8 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 	return nil
 }
 
+// checkTimestamp records the latest timestamp of the accepted updates from the
+// device, which excludes all metadata.
 func (t *Target) checkTimestamp(ts time.Time) {
 	// Locking ensures that d.ts is always increasing regardless of the order in
 	// which updates are processed in parallel by multiple goroutines.
@@ -490,6 +478,12 @@ func (t *Target) checkTimestamp(ts time.Time) {
 	}
 }
 
+func (t *Target) latestTimestamp() time.Time {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.ts
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -555,13 +549,14 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
-				// This is the first accepted update as t.ts is uninitialized (assuming
+			latest := t.latestTimestamp()
+			if latest.UnixNano() <= 0 {
+				// This is the first accepted update as latest is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -569,6 +564,9 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates. An update that replaces
 		// an atomic group is always a change.
 		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
@@ -587,6 +585,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
@@ -693,10 +692,7 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
-	t.tsmu.Lock()
-	latest := t.ts
-	t.tsmu.Unlock()
-	t.meta.SetInt(metadata.LatestTimestamp, latest.UnixNano())
+	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
 	t.generateMetaUpdates(clients)
-- 
2.43.0


From 06638dd903115b806073880082c4e7e06618d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 12/26] fix: the metadata refresh does not race with the
 target's updates nor undo its state changes

---
 cache/cache.go | 112 ++++++++++++++++++++++++-------------------------
 1 file changed, 54 insertions(+), 58 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 18a23a5..56e35e1 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	log "github.com/golang/glog"
@@ -60,7 +61,8 @@ type Target struct {
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
-	sync            bool               // denotes whether this cache is in sync with target
+	sync            atomic.Bool        // denotes whether this cache is in sync with target
+	metaMu          sync.Mutex         // keeps meta and the leaves exporting it consistent
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
@@ -491,7 +493,6 @@ func (t *Target) resetTimestamp() {
 }
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
-	realData := true
 	path := leafPath(n)
 	if len(path) == 0 {
 		return nil, errors.New("update has an empty path")
@@ -500,7 +501,9 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		if len(path) == 1 {
 			return nil, fmt.Errorf("update of the root of the metadata: %q", path)
 		}
-		realData = false
+		// The periodic refresh of the metadata may run concurrently.
+		t.metaMu.Lock()
+		defer t.metaMu.Unlock()
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
@@ -509,8 +512,8 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.sync.Store(tv.BoolVal)
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -525,6 +528,12 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.meta.SetStr(path[1], tv.StringVal)
 		}
 	}
+	return t.store(path, n)
+}
+
+// store sets the leaf at path to n unless n is rejected.
+func (t *Target) store(path []string, n *pb.Notification) (*ctree.Leaf, error) {
+	realData := path[0] != metadata.Root
 	// Update an existing leaf.
 	if oldval := (*ctree.Leaf)(t.t.Get(path)); oldval != nil {
 		// An update with corrupt data is possible to visit a node that does not
@@ -574,7 +583,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if t.sync.Load() && realData {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -589,7 +598,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.sync.Load() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -645,6 +654,9 @@ func joinElems[T any](a, b []T) []T {
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if len(path) > 1 && path[0] == metadata.Root {
+		// The periodic refresh of the metadata may run concurrently.
+		t.metaMu.Lock()
+		defer t.metaMu.Unlock()
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -708,64 +720,47 @@ func sameValue(prev interface{}, noti *pb.Notification) bool {
 
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
-		if t.excludedMeta.Contains(value) {
-			continue
-		}
-		v, err := t.meta.GetBool(value)
-		if err != nil {
-			continue
-		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		noti := metaNotiBool(t.name, value, v)
-		if !sameValue(prev, noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
-				if clients != nil {
-					clients(n)
-				}
-			}
-		}
+		t.generateMetaUpdate(value, clients, func() (*pb.Notification, error) {
+			v, err := t.meta.GetBool(value)
+			return metaNotiBool(t.name, value, v), err
+		})
 	}
 
 	for value := range metadata.TargetIntValues {
-		if t.excludedMeta.Contains(value) {
-			continue
-		}
-		v, err := t.meta.GetInt(value)
-		if err != nil {
-			continue
-		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		noti := metaNotiInt(t.name, value, v)
-		if !sameValue(prev, noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
-				if clients != nil {
-					clients(n)
-				}
-			}
-		}
+		t.generateMetaUpdate(value, clients, func() (*pb.Notification, error) {
+			v, err := t.meta.GetInt(value)
+			return metaNotiInt(t.name, value, v), err
+		})
 	}
 
 	for value := range metadata.TargetStrValues {
-		if t.excludedMeta.Contains(value) {
-			continue
-		}
-		v, err := t.meta.GetStr(value)
-		if err != nil {
-			continue
-		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		noti := metaNotiStr(t.name, value, v)
-		if !sameValue(prev, noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
-				if clients != nil {
-					clients(n)
-				}
-			}
-		}
+		t.generateMetaUpdate(value, clients, func() (*pb.Notification, error) {
+			v, err := t.meta.GetStr(value)
+			return metaNotiStr(t.name, value, v), err
+		})
+	}
+}
+
+// generateMetaUpdate exports a metadata value, which current returns, if it has
+// changed. The metadata itself is left as it is.
+func (t *Target) generateMetaUpdate(value string, clients func(*ctree.Leaf), current func() (*pb.Notification, error)) {
+	if t.excludedMeta.Contains(value) {
+		return
+	}
+	if n := t.exportMeta(metadata.Path(value), current); n != nil && clients != nil {
+		clients(n)
+	}
+}
+
+func (t *Target) exportMeta(path []string, current func() (*pb.Notification, error)) *ctree.Leaf {
+	t.metaMu.Lock()
+	defer t.metaMu.Unlock()
+	noti, err := current()
+	if err != nil || sameValue(t.t.GetLeafValue(path), noti) {
+		return nil
 	}
+	n, _ := t.store(path, noti)
+	return n
 }
 
 // Reset clears the Target of stale data upon a reconnection and notifies
@@ -774,6 +769,7 @@ func (t *Target) Reset() {
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
+	t.sync.Store(false)
 	t.meta.Clear()
 	t.updateMeta(t.client)
 	for root := range t.t.Children() {
-- 
2.43.0


From 007b07202338737a26b5799cad3d37b50373f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 13/26] fix: latency statistics of a window are exported when
 zero or negative

---
 latency/latency.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/latency/latency.go b/latency/latency.go
index f7e372a..172b089 100644
--- a/latency/latency.go
+++ b/latency/latency.go
@@ -163,21 +163,20 @@ func (w *window) setAvg(name string, m Metadata) {
 		return
 	}
 	avg := w.total / time.Duration(w.count)
-	if n := avg.Nanoseconds(); n != 0 {
-		m.SetInt(name, n*w.sf)
-	}
+	m.SetInt(name, avg.Nanoseconds()*w.sf)
 }
 
 func (w *window) setMax(name string, m Metadata) {
-	var max time.Duration
-	for _, slot := range w.slots {
+	if len(w.slots) == 0 {
+		return
+	}
+	max := w.slots[0].max
+	for _, slot := range w.slots[1:] {
 		if slot.max > max {
 			max = slot.max
 		}
 	}
-	if n := max.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, max.Nanoseconds())
 }
 
 func (w *window) setMin(name string, m Metadata) {
@@ -190,9 +189,7 @@ func (w *window) setMin(name string, m Metadata) {
 			min = slot.min
 		}
 	}
-	if n := min.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, min.Nanoseconds())
 }
 
 func (w *window) slide(ts time.Time) {
@@ -292,10 +289,10 @@ func (l *Latency) Compute(ts time.Time) {
 	lat := l.compute(ts, nowTime)
 	l.totalDiff += lat / l.scaleFactor
 	l.count++
-	if lat > l.max {
+	if lat > l.max || l.count == 1 {
 		l.max = lat
 	}
-	if lat < l.min || l.min == 0 {
+	if lat < l.min || l.count == 1 {
 		l.min = lat
 	}
 	if l.start.IsZero() {
-- 
2.43.0


From 1d640e14ba31c7f866359d72cee95a0ac1f43296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 14/26] fix: value.Equal is total

---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..d1a9d9d 100644
--- a/value/value.go
+++ b/value/value.go
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From 882b11bfc70f6bade40f7f51be39a2697aa7e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 15/26] fix: value.ToScalar is total

---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index d1a9d9d..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
-- 
2.43.0


From 5020f80aa107719448208418adb5542a3764f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 16/26] fix: a failed ctree add does not read the content of
 the existing value

The value belongs to the leaf: formatting it races with other readers of a
protobuf message, which update its lazily set internal state.
---
 ctree/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 3bfea55..6fe40bc 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -144,7 +144,7 @@ func (t *Tree) slowAdd(path []string, value interface{}) error {
 		}
 		return br.Add(path[1:], value)
 	default:
-		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
+		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value of type %T", value, path, t.leafBranch)
 	}
 }
 
@@ -172,7 +172,7 @@ func (t *Tree) intermediateAdd(path []string, value interface{}) error {
 	case branch:
 		br = b[path[0]]
 	default:
-		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
+		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value of type %T", value, path, t.leafBranch)
 	}
 	if br == nil {
 		// Exchange the reader lock on t for a writer lock to add new node(s) to the
-- 
2.43.0


From 60d2a192e46ce30e33dff4e88d348d829bcf53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 17/26] fix: metadata changes are announced in the order they
 are made

A delete by the target that covers metadata leaves and the periodic refresh
run concurrently: the delete of a leaf could be announced after the refresh
stored and announced it again, and a lifecycle change could be rejected as
stale because the refresh stored a later timestamp first.
---
 cache/cache.go | 65 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 56e35e1..b1500c2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -62,7 +62,7 @@ type Target struct {
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
 	sync            atomic.Bool        // denotes whether this cache is in sync with target
-	metaMu          sync.Mutex         // keeps meta and the leaves exporting it consistent
+	metaMu          sync.Mutex         // serializes changes of the metadata leaves and their announcement
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
@@ -227,7 +227,9 @@ func (c *Cache) ConnectError(name string, err error) {
 
 // connectError updates the ConnectError in the cached metadata.
 func (t *Target) connectError(err error) {
-	if err := t.GnmiUpdate(metaNotiStr(t.name, metadata.ConnectError, err.Error())); err != nil {
+	t.metaMu.Lock()
+	defer t.metaMu.Unlock()
+	if err := t.gnmiNotification(metaNotiStr(t.name, metadata.ConnectError, err.Error())); err != nil {
 		log.Errorf("target %q got error during meta connect error update, %v", t.name, err)
 	}
 }
@@ -338,7 +340,9 @@ func (c *Cache) Sync(name string) {
 // Sync creates an internal gnmi.Notification with metadata/sync path
 // to set the state to true for the specified target.
 func (t *Target) Sync() {
-	if err := t.GnmiUpdate(metaNotiBool(t.name, metadata.Sync, true)); err != nil {
+	t.metaMu.Lock()
+	defer t.metaMu.Unlock()
+	if err := t.gnmiNotification(metaNotiBool(t.name, metadata.Sync, true)); err != nil {
 		log.Errorf("target %q got error during meta sync update, %v", t.name, err)
 	}
 }
@@ -354,11 +358,13 @@ func (c *Cache) Connect(name string) {
 // Connect creates an internal gnmi.Notification for metadata/connected path
 // to set the state to true for the specified target, and clear connectErr.
 func (t *Target) Connect() {
-	if err := t.GnmiUpdate(metaNotiBool(t.name, metadata.Connected, true)); err != nil {
+	t.metaMu.Lock()
+	defer t.metaMu.Unlock()
+	if err := t.gnmiNotification(metaNotiBool(t.name, metadata.Connected, true)); err != nil {
 		log.Errorf("target %q got error during meta connected update, %v", t.name, err)
 	}
 
-	if err := t.GnmiUpdate(deleteNoti(t.name, "", metadata.Path(metadata.ConnectError))); err != nil {
+	if err := t.gnmiNotification(deleteNoti(t.name, "", metadata.Path(metadata.ConnectError))); err != nil {
 		log.Errorf("target %q got error during meta connectError update, %v", t.name, err)
 	}
 }
@@ -386,6 +392,35 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
+	if touchesMeta(n) {
+		// The periodic refresh of the metadata may run concurrently.
+		t.metaMu.Lock()
+		defer t.metaMu.Unlock()
+	}
+	return t.gnmiNotification(n)
+}
+
+// touchesMeta reports whether n may change metadata leaves.
+func touchesMeta(n *pb.Notification) bool {
+	if n.GetAtomic() {
+		p := joinPrefixAndPath(n.GetPrefix(), nil)
+		return len(p) > 0 && p[0] == metadata.Root
+	}
+	for _, u := range n.GetUpdate() {
+		if p := joinPrefixAndPath(n.GetPrefix(), u.GetPath()); len(p) > 0 && p[0] == metadata.Root {
+			return true
+		}
+	}
+	for _, d := range n.GetDelete() {
+		if p := joinPrefixAndPath(n.GetPrefix(), d); len(p) == 0 || p[0] == metadata.Root || p[0] == "*" {
+			return true
+		}
+	}
+	return false
+}
+
+// gnmiNotification processes n; metaMu is held if n may change metadata leaves.
+func (t *Target) gnmiNotification(n *pb.Notification) error {
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -501,9 +536,6 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		if len(path) == 1 {
 			return nil, fmt.Errorf("update of the root of the metadata: %q", path)
 		}
-		// The periodic refresh of the metadata may run concurrently.
-		t.metaMu.Lock()
-		defer t.metaMu.Unlock()
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
@@ -654,9 +686,6 @@ func joinElems[T any](a, b []T) []T {
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if len(path) > 1 && path[0] == metadata.Root {
-		// The periodic refresh of the metadata may run concurrently.
-		t.metaMu.Lock()
-		defer t.metaMu.Unlock()
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -747,20 +776,16 @@ func (t *Target) generateMetaUpdate(value string, clients func(*ctree.Leaf), cur
 	if t.excludedMeta.Contains(value) {
 		return
 	}
-	if n := t.exportMeta(metadata.Path(value), current); n != nil && clients != nil {
-		clients(n)
-	}
-}
-
-func (t *Target) exportMeta(path []string, current func() (*pb.Notification, error)) *ctree.Leaf {
 	t.metaMu.Lock()
 	defer t.metaMu.Unlock()
 	noti, err := current()
+	path := metadata.Path(value)
 	if err != nil || sameValue(t.t.GetLeafValue(path), noti) {
-		return nil
+		return
+	}
+	if n, _ := t.store(path, noti); n != nil && clients != nil {
+		clients(n)
 	}
-	n, _ := t.store(path, noti)
-	return n
 }
 
 // Reset clears the Target of stale data upon a reconnection and notifies
-- 
2.43.0


From 76508e4ad71f97f150bf0b908b0ef71dc4bc5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:39 +0000
Subject: [PATCH 18/26] fix: the send timeout covers the sync response

---
 subscribe/subscribe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 1a0cc13..e5e2a6f 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -516,7 +516,11 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			// The sync response is subject to the same timeout as any other send.
+			t.Reset(s.o.timeout)
+			err = c.stream.Send(subscribeSync)
+			t.Stop()
+			if err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From 3c227b77d062fc1a3d107366e041a196661b3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 19/26] fix: send client query elements with backslashes or
 spaces unchanged

The elements of a query were joined to a string and parsed back, which
dropped backslashes and rejected spaces. Only elements with list keys need
parsing.
---
 client/gnmi/client.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..c443cef 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -265,7 +265,7 @@ func subscribe(q client.Query) (*gpb.SubscribeRequest, error) {
 		s.Subscribe.UpdatesOnly = true
 	}
 	for _, qq := range q.Queries {
-		pp, err := ygot.StringToPath(pathToString(qq), ygot.StructuredPath, ygot.StringSlicePath)
+		pp, err := queryPath(qq)
 		if err != nil {
 			return nil, fmt.Errorf("invalid query path %q: %v", qq, err)
 		}
@@ -275,6 +275,23 @@ func subscribe(q client.Query) (*gpb.SubscribeRequest, error) {
 	return &gpb.SubscribeRequest{Request: s}, nil
 }
 
+// queryPath converts a query to a gNMI path. A query with list keys in some
+// element, e.g. "b[k=v]", is parsed. The elements of any other query are taken
+// literally.
+func queryPath(q client.Path) (*gpb.Path, error) {
+	for _, e := range q {
+		if e == "" || strings.ContainsAny(e, "[]") {
+			return ygot.StringToPath(pathToString(q), ygot.StructuredPath, ygot.StringSlicePath)
+		}
+	}
+	p := &gpb.Path{}
+	for _, e := range q {
+		p.Elem = append(p.Elem, &gpb.PathElem{Name: e})
+		p.Element = append(p.Element, e)
+	}
+	return p, nil
+}
+
 func noti(prefix []string, pp *gpb.Path, ts time.Time, u *gpb.Update) (client.Notification, error) {
 	sp := path.ToStrings(pp, false)
 	// Make a full new copy of prefix + u.Path to avoid any reuse of underlying
-- 
2.43.0


From 7008aefe81469cbd0df11eabda0a6d76cb385c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 20/26] fix: do not panic when the CLI groups a value at the
 root path

---
 cli/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..865704e 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,6 +404,10 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// A value at the root of the tree has no name.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
-- 
2.43.0


From 6f841d6cea66b87b3a77250e2f3b88fc21896d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 21/26] fix: gnmi_collector: register configured targets with
 the cache

---
 cmd/gnmi_collector/gnmi_collector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..38af5d3 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -264,7 +264,11 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache only accepts updates for, and subscriptions to, targets it has
+	// been told about.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From 673b0a0dfa690a3ccade06b0d6a906d874554559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 22/26] fix: gnmi_cli: honor -proto_file for Subscribe

---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From bd131fbbf1d8c8999e75bd77a775b40c36677936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 23/26] fix: gnmi_collector: start the targets after the change
 feed is in place

---
 cmd/gnmi_collector/gnmi_collector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 38af5d3..7cb5bf9 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -211,9 +211,6 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
@@ -221,6 +218,11 @@ func runCollector(ctx context.Context) error {
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
 	// Forward streaming updates to clients.
 	c.cache.SetClient(subscribeSrv.Update)
+
+	// Initialize collectors. The targets are only started once the feed to the
+	// Subscribe server is in place, so that no update bypasses it.
+	c.start(context.Background())
+
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
-- 
2.43.0


From b033728796b517c8f083ff09c314466bd95d0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 24/26] fix: gnmi_collector: keep origins that are specified in
 the paths of a notification

---
 cmd/gnmi_collector/gnmi_collector.go | 74 ++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 7cb5bf9..25cb631 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -113,6 +113,50 @@ func (cd *unimplementedCredentials) Lookup(_ context.Context, key string) (strin
 	return "", fmt.Errorf("credentials lookup not implemented for key: %q", key)
 }
 
+// splitOrigins moves the origins that are specified in the paths of v, which
+// is permitted as long as the prefix doesn't specify one, to the prefix. It
+// returns one notification for each origin in v.
+func splitOrigins(v *gnmipb.Notification) []*gnmipb.Notification {
+	if v.GetPrefix().GetOrigin() != "" {
+		return []*gnmipb.Notification{v}
+	}
+	var ns []*gnmipb.Notification
+	byOrigin := map[string]*gnmipb.Notification{}
+	forPath := func(p *gnmipb.Path) *gnmipb.Notification {
+		origin := p.GetOrigin()
+		n := byOrigin[origin]
+		if n == nil {
+			n = &gnmipb.Notification{
+				Timestamp: v.GetTimestamp(),
+				Prefix: &gnmipb.Path{
+					Origin:  origin,
+					Elem:    v.GetPrefix().GetElem(),
+					Element: v.GetPrefix().GetElement(),
+				},
+				Atomic: v.GetAtomic(),
+			}
+			byOrigin[origin] = n
+			ns = append(ns, n)
+		}
+		if p != nil {
+			p.Origin = ""
+		}
+		return n
+	}
+	for _, u := range v.GetUpdate() {
+		n := forPath(u.GetPath())
+		n.Update = append(n.Update, u)
+	}
+	for _, d := range v.GetDelete() {
+		n := forPath(d)
+		n.Delete = append(n.Delete, d)
+	}
+	if len(ns) == 0 {
+		return []*gnmipb.Notification{v}
+	}
+	return ns
+}
+
 // Under normal conditions, this function will not terminate.  Cancelling
 // the context will stop the collector.
 func runCollector(ctx context.Context) error {
@@ -183,21 +227,23 @@ func runCollector(ctx context.Context) error {
 		ConnectionManager: c.cm,
 		Timeout:           *dialTimeout,
 		Update: func(target string, v *gnmipb.Notification) {
-			// Explicitly set all updates as having come from this target even if
-			// the target itself doesn't report or incorrectly reports the target
-			// field. Also promote an empty origin field to 'openconfig', the default
-			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
+			for _, v := range splitOrigins(v) {
+				// Explicitly set all updates as having come from this target even if
+				// the target itself doesn't report or incorrectly reports the target
+				// field. Also promote an empty origin field to 'openconfig', the default
+				// origin for gNMI.
+				if prefix := v.GetPrefix(); prefix == nil {
+					v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
+				} else {
+					if prefix.Origin == "" {
+						prefix.Origin = "openconfig"
+					}
+					prefix.Target = target
 				}
-				prefix.Target = target
-			}
-			if err := c.cache.GnmiUpdate(v); err != nil {
-				if log.V(2) {
-					log.Infof("dropped cache.Update(%#v): %v", v, err)
+				if err := c.cache.GnmiUpdate(v); err != nil {
+					if log.V(2) {
+						log.Infof("dropped cache.Update(%#v): %v", v, err)
+					}
 				}
 			}
 		},
-- 
2.43.0


From 9c5de11bed83912e38aa1f82277215a984e9fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 25/26] fix: client: drop what an earlier poll returned from
 the cache

---
 client/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/cache.go b/client/cache.go
index cd2efbd..b4ed93c 100644
--- a/client/cache.go
+++ b/client/cache.go
@@ -83,8 +83,12 @@ func (c *CacheClient) defaultHandler(n Notification) error {
 }
 
 // Poll implements the Client interface.
-// Poll also closes the channel returned by Synced and resets it.
+// Poll also closes the channel returned by Synced and resets it. The response
+// to a poll is the complete state, so that what was received before is dropped.
 func (c *CacheClient) Poll() error {
+	if c.query.Type == Poll {
+		c.Delete(nil)
+	}
 	select {
 	default:
 		close(c.synced)
-- 
2.43.0


From 448b96943f6d5a43b2da3cff1e2ce25433ddaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 26/26] fix: cache: Reset of a target with an empty root
 element does not announce its removal

---
 cache/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index b1500c2..0cc2680 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -802,7 +802,12 @@ func (t *Target) Reset() {
 			continue
 		}
 		t.t.Delete([]string{root})
-		t.client(ctree.DetachedLeaf(deleteNoti(t.name, root, []string{"*"})))
+		elems := []string{"*"}
+		if root == "" {
+			// Without an origin, "*" would be the deletion of the entire target.
+			elems = []string{root, "*"}
+		}
+		t.client(ctree.DetachedLeaf(deleteNoti(t.name, root, elems)))
 	}
 }
 
-- 
2.43.0

