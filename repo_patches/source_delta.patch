From e433fcfc7ae87fa65a2d324e5c47a9fc9ed20d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 01/49] fix: emit event attributes in a deterministic order

patchEvent ranged over a map, so two nodes executing the same block recorded
the attributes of the same event in different orders.
---
 util/msg_server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 4b9bccc..523f152 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/gogo/protobuf/proto"
@@ -62,8 +63,15 @@ func patchEvent(tev proto.Message) sdk.Event {
 		panic(errors.Wrap(err, "cannot unmarshal JSON"))
 	}
 
+	keys := make([]string, 0, len(attrMap))
+	for k := range attrMap {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
 	attrs := make([]abci.EventAttribute, 0, len(attrMap))
-	for k, v := range attrMap {
+	for _, k := range keys {
+		v := attrMap[k]
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-- 
2.43.0


From acc4db748c3daa2f0842db439958f45a759b63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 02/49] fix: don't let a poll history query allocate as much
 memory as it asks for

The page size comes from the client and nothing bounds it, so one query with a
huge limit ends the node out of memory.
---
 x/voting/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..6fae532 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -693,7 +693,6 @@ func (k Keeper) GetPollHistory(ctx sdk.Context, limit int32, page int32) []types
 	)
 	if limit > 0 {
 		it = sdk.KVStorePrefixIteratorPaginated(store, types.KeyPollHistory, uint(page), uint(limit))
-		res = make([]types.PollHistoryItem, 0, limit)
 	} else {
 		it = sdk.KVStorePrefixIterator(store, types.KeyPollHistory)
 	}
-- 
2.43.0


From 573c554214bc4bd89422323cd817d3027960f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 03/49] fix: count delegated coins in the whole network when no
 depth limit is given

GetCoinsInNetwork treats a zero depth as unlimited and GetDelegatedInNetwork
did not, so a Coins query without a depth answered a zero delegated amount.
---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..365298f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -414,6 +414,9 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
 // Own coins inclusive.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0


From 381012ff600fa0c1998189ca3109b20d79a0995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/49] fix: store the switched off state of a validator who's
 lost their stake

OnStakeChanged announced the banishment and took the validator out of the
lottery queue but returned before saving the record, so the disqualified
account stayed in the validator set (with a dangling lottery number).
---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e75fd08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From 5a1b70b13edf3be270c562f5cd187fc1960c9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 05/49] fix: really merge validator updates for the same public
 key

tmcrypto.PublicKey holds a pointer, so the == comparison never matched and the
list could mention a key twice, which halts Tendermint.
---
 x/noding/keeper/keeper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e75fd08..e0ae0ec 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -504,8 +504,11 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				// the former operator's leaving must not override the new one's joining, whatever order they go in
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 03e0f8f5db161cd943af79b5484450b3d3d391c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 06/49] fix: don't let two active validators have the same
 public key

A jailed validator's key may be taken over by another account. Letting the
first one out of jail made both of them active with the same key.
---
 x/noding/keeper/keeper.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e0ae0ec..7af2613 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -722,6 +722,15 @@ func (k Keeper) Unjail(ctx sdk.Context, acc sdk.AccAddress) error {
 	if ctx.BlockHeight() < data.UnjailAt {
 		return types.ErrJailPeriodNotOver
 	}
+	if data.Status {
+		operator, found, active, err := k.GetValidatorByConsAddr(ctx, consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(data.PubKey)))
+		if err != nil {
+			return err
+		}
+		if found && active && !operator.Equals(acc) {
+			return types.ErrPubkeyBusy
+		}
+	}
 	data.Jailed = false
 	q, delegation, reason, err := k.IsQualified(ctx, acc)
 	if err != nil {
-- 
2.43.0


From f4c2777f2ef3c113be962066b6bfaf57becd3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 07/49] fix: store a nickname exactly as it is indexed

The index got a nickname without surrounding white space but the profile kept
it as it was, so the profile couldn't be found by its own nickname and the
index entry could never be removed.
---
 x/profile/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..374ee9d 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -122,6 +122,7 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	oldProfile := k.GetProfile(ctx, addr)
 
 	nickname := strings.TrimSpace(profile.Nickname)
+	profile.Nickname = nickname
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
-- 
2.43.0


From 7ae07b1328e4b723da759a5e24a1b84a61c51141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 08/49] fix: don't lose a task that's scheduled for a moment
 which is being processed

PerformSchedule worked on a copy of the schedule and then deleted whole keys,
so a task scheduled by a hook for a moment that's already passed but is still
to be processed in the same block (the chain has been standing for more than a
day) vanished without having been performed.
---
 x/schedule/keeper/keeper.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..b1e0a7a 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -123,13 +122,26 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
-	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
+	var (
+		store      = ctx.KVStore(k.storeKey)
+		terminator = Key(ctx.BlockTime().Add(time.Nanosecond))
+		keys       [][]byte
+	)
 	it := store.Iterator(nil, terminator)
-
 	for ; it.Valid(); it.Next() {
+		keys = append(keys, append([]byte(nil), it.Key()...))
+	}
+	it.Close()
+
+	for _, key := range keys {
+		bz := store.Get(key)
+		if bz == nil { // cancelled by one of the tasks above
+			continue
+		}
 		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+		k.cdc.MustUnmarshalBinaryBare(bz, &sch)
+		// It must be deleted before the tasks are performed, not to lose what they schedule for the same time.
+		store.Delete(key)
 		for _, task := range sch.Tasks {
 			hook := k.eventHooks[task.HandlerName]
 			if hook != nil {
@@ -138,11 +150,7 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 			}
 		}
-		store.Delete(it.Key())
 	}
-
-	it.Close()
-	store.Write()
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From d0debaf07c0fe3fdbfa9c60d70f4a2c3348883a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 09/49] fix: keep the tenth level's totals right when an
 account is compressed

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 365298f..6ac550d 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -362,7 +362,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From f6d8d25d5c09459460e08208d37d874717df98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 10/49] fix: don't move anybody under an account that doesn't
 take part in the referral program

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 6ac550d..2a0ab0d 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1253,6 +1253,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if subject == newParent {
 		return errors.New("subject cannot be their own referral")
 	}
+	if !k.exists(ctx, subject) {
+		return errors.New("subject account data missing")
+	}
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
@@ -1268,6 +1271,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if r.Referrer == newParent {
 		return errors.New("destination address is already subject's referrer")
 	}
+	if !k.exists(ctx, newParent) {
+		return errors.New("destination account data missing")
+	}
 	if p, err = k.Get(ctx, newParent); err != nil {
 		return errors.Wrap(err, "destination account data missing")
 	}
-- 
2.43.0


From 6b9284fbdf55523b943b40bc96a9394f09e74b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 11/49] fix: cancel the planned status downgrade of an account
 that's compressed

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 2a0ab0d..7a9ba3f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -325,6 +325,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(),
 		}
 		value.CompressionAt = nil
+		value.StatusDowngradeAt = nil
 		bu.addCallback(StakeChangedCallback, acc)
 		k.setStatus(ctx, value, types.STATUS_LUCKY, acc)
 		bu.addCallback(StatusUpdatedCallback, acc)
-- 
2.43.0


From 15e841df091ad3f43d01ab4afeb1877c41317e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 12/49] fix: don't register an account under a referrer who
 isn't in the referral program

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 7a9ba3f..a5e992d 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -214,6 +214,9 @@ func (k Keeper) appendChild(ctx sdk.Context, parentAcc string, childAcc string,
 	if parentAcc == "" {
 		return types.ErrParentNil
 	}
+	if !k.exists(ctx, parentAcc) {
+		return sdkerrors.Wrap(types.ErrNotFound, parentAcc)
+	}
 	if k.exists(ctx, childAcc) {
 		return sdkerrors.Wrap(
 			sdkerrors.ErrInvalidRequest,
-- 
2.43.0


From 483ac4df27a9e5383bf8eb1415da4591c11d69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 13/49] fix: don't let an outdated timeout cancel a new
 transition request

---
 x/referral/keeper/hooks.go           | 22 +++++++++++++++++++++-
 x/referral/types/expected_keepers.go |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/x/referral/keeper/hooks.go b/x/referral/keeper/hooks.go
index 05213e8..f741e6a 100644
--- a/x/referral/keeper/hooks.go
+++ b/x/referral/keeper/hooks.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"time"
 
 	"github.com/pkg/errors"
@@ -50,12 +51,31 @@ func (k Keeper) PerformCompression(ctx sdk.Context, data []byte, _ time.Time) {
 	}
 }
 
-func (k Keeper) PerformTransitionTimeout(ctx sdk.Context, data []byte, _ time.Time) {
+func (k Keeper) PerformTransitionTimeout(ctx sdk.Context, data []byte, at time.Time) {
+	if !k.isTransitionTimeoutActual(ctx, data, at) {
+		return
+	}
 	if err := k.CancelTransition(ctx, string(data), true); err != nil {
 		panic(err)
 	}
 }
 
+// isTransitionTimeoutActual checks if a timeout concerns the transition that's being requested now and not an earlier
+// request that's been resolved in time.
+func (k Keeper) isTransitionTimeoutActual(ctx sdk.Context, data []byte, at time.Time) bool {
+	if transition, err := k.GetPendingTransition(ctx, string(data)); err == nil && transition == "" {
+		return false
+	}
+	// The last request's timeout is the last one.
+	latest := ctx.BlockTime().Add(k.scheduleKeeper.OneDay(ctx))
+	for _, task := range k.scheduleKeeper.GetTasks(ctx, at.Add(time.Nanosecond), latest.Add(time.Nanosecond)) {
+		if task.HandlerName == TransitionTimeoutHookName && bytes.Equal(task.Data, data) {
+			return false
+		}
+	}
+	return true
+}
+
 func (k Keeper) PerformBanish(ctx sdk.Context, data []byte, _ time.Time) {
 	if err := k.Banish(ctx, string(data)); err != nil {
 		panic(err)
diff --git a/x/referral/types/expected_keepers.go b/x/referral/types/expected_keepers.go
index 6c4ed62..1cabb83 100644
--- a/x/referral/types/expected_keepers.go
+++ b/x/referral/types/expected_keepers.go
@@ -8,6 +8,7 @@ import (
 	params "github.com/cosmos/cosmos-sdk/x/params/types"
 
 	"github.com/arterynetwork/artr/x/bank"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interface
@@ -25,6 +26,7 @@ type AccountKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneDay(ctx sdk.Context) time.Duration
 	OneWeek(ctx sdk.Context) time.Duration
-- 
2.43.0


From e09255fcd6b67a08b4185b58ade0f0959ec33f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 14/49] fix: check statuses only when all totals are right
 after a transition

---
 x/referral/keeper/keeper.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index a5e992d..9b145ce 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -810,9 +810,10 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	var (
 		bu                       = newBunchUpdater(k, ctx)
 		oldAncestor, newAncestor string
+		affected                 = []string{oldParent, newParent}
 	)
 
-	if err = bu.update(oldParent, true, func(value *types.Info) error {
+	if err = bu.update(oldParent, false, func(value *types.Info) error {
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
 		}
@@ -835,7 +836,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		panic(errors.Wrap(err, "cannot update old referrer data"))
 	}
 
-	if err = bu.update(newParent, true, func(value *types.Info) error {
+	if err = bu.update(newParent, false, func(value *types.Info) error {
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
@@ -855,10 +856,15 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 
 	for level := 2; level <= 10; level++ {
 		if oldAncestor == newAncestor {
+			// Totals don't change from here on, but the nearest common ancestor's referrals do.
+			if oldAncestor != "" {
+				affected = append(affected, oldAncestor)
+			}
 			break
 		}
 		if oldAncestor != "" {
-			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+			affected = append(affected, oldAncestor)
+			if err = bu.update(oldAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
@@ -871,7 +877,8 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			}
 		}
 		if newAncestor != "" {
-			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+			affected = append(affected, newAncestor)
+			if err = bu.update(newAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
@@ -885,6 +892,13 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 	}
 
+	// Statuses can be checked only when all the totals are right.
+	for _, acc := range affected {
+		if err = bu.update(acc, true, func(_ *types.Info) error { return nil }); err != nil {
+			panic(errors.Wrapf(err, "cannot check %s status", acc))
+		}
+	}
+
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
-- 
2.43.0


From d1f6faca7488b66b304914a11fd20d419cf6244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 15/49] fix: don't change a poll's counter within the store's
 cache

---
 x/voting/keeper/keeper.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 6fae532..f7f7ccb 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -607,16 +607,12 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 	}
 	ansStore.Set(key, ans)
 
-	var (
-		bz    []byte
-		value uint64
-	)
-	if bz = store.Get(countKey); bz != nil {
+	var value uint64
+	if bz := store.Get(countKey); bz != nil {
 		value = binary.BigEndian.Uint64(bz)
-	} else {
-		bz = make([]byte, 8)
 	}
 	value += 1
+	bz := make([]byte, 8) // what the store returns must not be changed in place
 	binary.BigEndian.PutUint64(bz, value)
 	store.Set(countKey, bz)
 
-- 
2.43.0


From 4817981007ede69197da327f3119edaaf4faaaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 16/49] fix: don't let an account creator set paid profile
 fields or an illegal nickname

---
 x/profile/keeper/msg_server.go | 12 +++++++++++-
 x/profile/types/msgs.go        | 21 +++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..feec563 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,17 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		// It's up to the sender to set preferences and the nickname, but everything else has to be paid for.
+		profile := types.Profile{
+			AutoPay:        msg.Profile.AutoPay,
+			Noding:         msg.Profile.Noding,
+			Storage:        msg.Profile.Storage,
+			Validator:      msg.Profile.Validator,
+			Vpn:            msg.Profile.Vpn,
+			AutoPayImExtra: msg.Profile.AutoPayImExtra,
+			Nickname:       msg.Profile.Nickname,
+		}
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 872699a..77aeddc 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -67,6 +67,11 @@ func (msg MsgCreateAccount) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Referrer); err != nil {
 		return errors.Wrap(err, "invalid referrer")
 	}
+	if msg.Profile != nil {
+		if err := validateNickname(msg.Profile.Nickname); err != nil {
+			return errors.Wrap(err, "invalid profile")
+		}
+	}
 
 	return nil
 }
@@ -113,6 +118,22 @@ func (msg MsgCreateAccount) WithProfile() bool {
 	return msg.Profile != nil
 }
 
+func validateNickname(s string) error {
+	if len(s) == 0 {
+		return nil
+	}
+	if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
+		return ErrNicknameInvalidChars
+	}
+	if len(s) < 3 {
+		return ErrNicknameTooShort
+	}
+	if strings.HasPrefix(s, "ARTR-") {
+		return ErrNicknamePrefix
+	}
+	return nil
+}
+
 // Route should return the name of the module
 func (msg MsgUpdateProfile) Route() string { return RouterKey }
 
-- 
2.43.0


From cbcc2f49256fc8e2b2656f27fbf03dc22e729529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 17/49] fix: give an account the storage it's paid for along
 with a new subscription

---
 x/profile/keeper/subscription.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..6b08e12 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -69,6 +69,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			}
 			profile.StorageLimit = storageB
 		}
+	} else {
+		profile.StorageLimit = storageB
 	}
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
-- 
2.43.0


From 644009bf1abac1e3e1ffd5f85c21793acca1b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 18/49] fix: don't overflow when a price of a huge storage is
 being calculated

---
 x/profile/keeper/subscription.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 6b08e12..16c5641 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,7 +52,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		MulInt64(int64(p.StorageGbPrice)).
 		DivInt64(util.GBSize).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
-- 
2.43.0


From 388534004c91c3abbd3fe76ad1cf92a906e4ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 19/49] fix: don't underflow a VPN limit when it's been
 exceeded

---
 x/profile/keeper/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 16c5641..bee594c 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -370,7 +370,11 @@ func (k Keeper) scheduleRenewIm(ctx sdk.Context, addr sdk.AccAddress, time time.
 func (k Keeper) resetLimits(ctx sdk.Context, addr sdk.AccAddress, p types.Params, profile *types.Profile) {
 	baseVpn := uint64(p.BaseVpnGb) * util.GBSize
 	if profile.VpnCurrent > baseVpn {
-		profile.VpnLimit -= profile.VpnCurrent - baseVpn
+		if excess := profile.VpnCurrent - baseVpn; profile.VpnLimit > excess {
+			profile.VpnLimit -= excess
+		} else {
+			profile.VpnLimit = 0
+		}
 	}
 	profile.VpnCurrent = 0
 
-- 
2.43.0


From 1e558ba5492f0f3ea072e833a48cc1a96002f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 20/49] fix: don't charge a transaction fee for a failed
 automatic payment

---
 x/profile/keeper/subscription.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index bee594c..f0ab455 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -449,9 +449,14 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
+		// A failed payment mustn't leave a transaction fee charged.
+		cacheCtx, writeCache := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
 		if err != nil {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
+		} else {
+			writeCache()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
 		}
 	} else {
 		err = errors.Errorf("disabled by user")
-- 
2.43.0


From 76342d61033146fad5ec9b86407be63d6c378ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 21/49] fix: re-check validators whose network's stake a
 transition changes

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 9b145ce..b40c319 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -897,6 +897,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		if err = bu.update(acc, true, func(_ *types.Info) error { return nil }); err != nil {
 			panic(errors.Wrapf(err, "cannot check %s status", acc))
 		}
+		bu.addCallback(StakeChangedCallback, acc)
 	}
 
 	if err = bu.commit(); err != nil {
-- 
2.43.0


From 2ceea56f966d0681d6d992cf0d58d35d0620c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 22/49] fix: re-check validators whose network loses or regains
 a banished account

---
 x/referral/keeper/keeper.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index b40c319..5e8317f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -976,6 +976,9 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
 			value.Delegated[1] = value.Delegated[1].Sub(d)
+			if !d.IsZero() {
+				bu.addCallback(StakeChangedCallback, parent)
+			}
 
 			return nil
 		}); err != nil {
@@ -996,6 +999,9 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
+				if !d.IsZero() {
+					bu.addCallback(StakeChangedCallback, parent)
+				}
 
 				return nil
 			}); err != nil {
@@ -1060,6 +1066,9 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 			value.Referrals = append(value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Add(c)
 			value.Delegated[1] = value.Delegated[1].Add(d)
+			if !d.IsZero() {
+				bu.addCallback(StakeChangedCallback, parent)
+			}
 
 			return nil
 		}); err != nil {
@@ -1080,6 +1089,9 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Add(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Add(d)
+				if !d.IsZero() {
+					bu.addCallback(StakeChangedCallback, parent)
+				}
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From bcbf6131d069ca939d0d8d916f724e309c50f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 23/49] fix: keep a validator's score up to date when its
 status changes

---
 x/noding/keeper/keeper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 7af2613..0caad8c 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -262,13 +262,15 @@ func (k Keeper) OnStatusUpdate(ctx sdk.Context, acc sdk.AccAddress) error {
 		return nil
 	}
 
-	var reason types.Reason
-	is, _, reason, err = k.IsQualified(ctx, acc)
+	is, delegation, reason, err := k.IsQualified(ctx, acc)
 	if err != nil {
 		return err
 	}
 	if is {
-		return nil
+		// the status determines which part of the network counts
+		return k.update(ctx, acc, func(d *types.Info) (save bool) {
+			return d.UpdateScore(delegation.Int64())
+		})
 	}
 
 	k.Logger(ctx).Info("not qualified anymore, banishing from validators", "account", acc)
-- 
2.43.0


From ae37fa7124f87ca3deb785f130a721c13d5e2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 24/49] fix: don't add a governor or an earning signer twice

---
 x/earning/keeper/params.go    | 8 +++++++-
 x/voting/keeper/government.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..ce9742d 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,7 +20,13 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
-	p.Signers = append(p.Signers, address.String())
+	bech32 := address.String()
+	for _, signer := range p.Signers {
+		if signer == bech32 {
+			return
+		}
+	}
+	p.Signers = append(p.Signers, bech32)
 	k.SetParams(ctx, p)
 }
 
diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index 3b7629d..dd9f76b 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -38,6 +38,9 @@ func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 
 func (k Keeper) AddGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
+	if govs.Contains(gov) {
+		return
+	}
 	govs.Append(gov)
 	k.SetGovernment(ctx, govs)
 }
-- 
2.43.0


From 75029a89c68195cf032e520e2e85f326bca15d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 25/49] fix: keep the history of every proposal finished within
 one block

---
 x/voting/keeper/keeper.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index f7f7ccb..c278595 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -170,10 +170,7 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(historyKey(store, ctx.BlockHeight()), historyBz)
 }
 
 func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalHistoryRecord) {
@@ -182,10 +179,20 @@ func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalH
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(record.Finished))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(historyKey(store, record.Finished), historyBz)
+}
+
+// historyKey returns a vacant key for a proposal finished at the height. Several ones can be finished within one block.
+func historyKey(store sdk.KVStore, height int64) []byte {
+	key := make([]byte, len(types.KeyHistoryPrefix)+8)
+	copy(key, types.KeyHistoryPrefix)
+	binary.BigEndian.PutUint64(key[len(types.KeyHistoryPrefix):], uint64(height))
+	for suffix, base := uint64(1), key; store.Has(key); suffix++ {
+		key = make([]byte, len(base)+8)
+		copy(key, base)
+		binary.BigEndian.PutUint64(key[len(base):], suffix)
+	}
+	return key
 }
 
 func (k Keeper) SetStartBlock(ctx sdk.Context) {
-- 
2.43.0


From 1470d7823dba8044f143802a0d9d1fb727d0dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 26/49] fix: don't refuse the deciding vote if what was decided
 cannot be put in force

---
 x/voting/keeper/keeper.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index c278595..17e2107 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -232,6 +232,18 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 	)
 
 	if agreed {
+		// A value that cannot be put in force (the last signer being removed, say) must not undo the vote.
+		defer func() {
+			if e := recover(); e != nil {
+				if _, ok := e.(sdk.ErrorOutOfGas); ok {
+					panic(e)
+				}
+				k.Logger(ctx).Error("could not apply voting result due to panic",
+					"name", proposal.Name,
+					"error", e,
+				)
+			}
+		}()
 		var err error
 		switch proposal.Type {
 		case types.PROPOSAL_TYPE_ENTER_PRICE:
-- 
2.43.0


From a92bd0490961716d4a04d9bcaa6f71a6c2ac716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 27/49] fix: let only the appointed signers report earners

---
 x/earning/keeper/msg_server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..bd97aa5 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -7,7 +7,9 @@ import (
 	"google.golang.org/grpc/status"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
+	"github.com/arterynetwork/artr/util"
 	"github.com/arterynetwork/artr/x/earning/types"
 )
 
@@ -16,7 +18,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}, Signer: msg.Signer})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +30,10 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	if !util.ContainsString(k.GetParams(sdkCtx).Signers, msg.Signer) {
+		return nil, sdkerrors.Wrap(sdkerrors.ErrUnauthorized, "signer is out of whitelist")
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
-- 
2.43.0


From cb91778a7354447cd95ba740c7d406093663c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 28/49] fix: consider a node busy as soon as its operator is
 released from jail

---
 x/noding/keeper/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0caad8c..11ef58c 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -754,6 +754,10 @@ func (k Keeper) Unjail(ctx sdk.Context, acc sdk.AccAddress) error {
 	if err != nil {
 		return err
 	}
+	if data.Status {
+		// the node must be considered busy at once
+		k.addNodeOperatorToIndex(ctx, consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(data.PubKey)), acc)
+	}
 	return nil
 }
 
-- 
2.43.0


From f1de764f34dfc29a8e3aeb356ea3d7f217c454a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 29/49] fix: accept a genesis with empty lists of votes and no
 proposal

---
 x/voting/types/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/voting/types/genesis.go b/x/voting/types/genesis.go
index c6bd2e7..7d0997e 100644
--- a/x/voting/types/genesis.go
+++ b/x/voting/types/genesis.go
@@ -46,10 +46,10 @@ func ValidateGenesis(data GenesisState) error {
 		if data.StartBlock != 0 {
 			return errors.New("invalid start_block: must be zero unless current_proposal is set")
 		}
-		if data.Agreed != nil {
+		if len(data.Agreed) != 0 {
 			return errors.New("invalid agreed: must be empty unless current_proposal is set")
 		}
-		if data.Disagreed != nil {
+		if len(data.Disagreed) != 0 {
 			return errors.New("invalid disagreed: must be empty unless current_proposal is set")
 		}
 	} else {
-- 
2.43.0


From 70837f03bb064176a04ac9a392942b211f8082b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 30/49] fix: keep active validators that have just lost the
 qualification on import

---
 x/noding/keeper/keeper.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 11ef58c..51ef889 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -605,7 +605,16 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
-		if err := k.SwitchOn(ctx, acc, pubkey); err != nil {
+		if err := k.SwitchOn(ctx, acc, pubkey); errors.Is(err, types.ErrNotQualified) {
+			// The criteria could have become stricter since then. That doesn't concern those who are already on.
+			if err := k.update(ctx, acc, func(d *types.Info) (save bool) {
+				d.Status = true
+				return true
+			}); err != nil {
+				return errors.Wrap(err, "cannot set status")
+			}
+			k.addNodeOperatorToIndex(ctx, sdk.GetConsAddress(pubkey), acc)
+		} else if err != nil {
 			return errors.Wrap(err, "cannot switch on")
 		}
 	}
-- 
2.43.0


From 89682dd712695f53a88b3a257a4ba49f690e0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 31/49] fix: export pending transitions of banished accounts

---
 x/referral/keeper/genesis.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/referral/keeper/genesis.go b/x/referral/keeper/genesis.go
index 3e0f0b3..a90bfe0 100644
--- a/x/referral/keeper/genesis.go
+++ b/x/referral/keeper/genesis.go
@@ -97,6 +97,19 @@ func (k Keeper) ExportToGenesis(ctx sdk.Context) (*types.GenesisState, error) {
 		}
 	}
 
+	for _, b := range banished {
+		data, err = k.Get(ctx, b.Account)
+		if err != nil {
+			return nil, errors.Wrapf(err, "cannot obtain %s data", b.Account)
+		}
+		if data.Transition != "" {
+			transitions = append(transitions, types.Transition{
+				Subject:     b.Account,
+				Destination: data.Transition,
+			})
+		}
+	}
+
 	return types.NewGenesisState(params, topLevel, other, banished, compressions, banishment, downgrades, transitions), nil
 }
 
-- 
2.43.0


From c5304b3174cda54c05a73b391908a0e472535ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 32/49] fix: import the answers of those who cannot take part
 in the poll any more

---
 x/voting/keeper/keeper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 17e2107..1ffd218 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -609,6 +609,11 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.addAnswer(ctx, acc, yes)
+}
+
+// addAnswer takes an answer to the current poll into account no matter if the respondent meets its requirements.
+func (k Keeper) addAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -754,7 +759,8 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			// Those who have answered could have ceased to meet the requirements since then.
+			if err := k.addAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From 5ddac91dc65c83f6e1c11d8d743ea37a00a72362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 33/49] fix: read fractions from YAML

---
 util/fraction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/fraction.go b/util/fraction.go
index 5b0dce6..195a69b 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -59,7 +59,7 @@ func (x Fraction) MarshalYAML() (interface{}, error) {
 }
 
 func (x *Fraction) UnmarshalYAML(value *yaml.Node) error {
-	if value.Kind == yaml.ScalarNode && value.ShortTag() == "string" {
+	if value.Kind == yaml.ScalarNode && value.ShortTag() == "!!str" {
 		return x.unmarshalText(value.Value)
 	}
 	return errors.Errorf("string expected, %s got", value.ShortTag())
-- 
2.43.0


From b79664d724c4962ae0523c6819e96839519cf3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:40 +0000
Subject: [PATCH 34/49] fix: show names with special characters in events as
 they are

---
 util/msg_server.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 523f152..bfdf1e6 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -3,9 +3,7 @@ package util
 import (
 	"bytes"
 	"encoding/json"
-	"regexp"
 	"sort"
-	"strings"
 
 	"github.com/gogo/protobuf/proto"
 	"github.com/pkg/errors"
@@ -75,16 +73,12 @@ func patchEvent(tev proto.Message) sdk.Event {
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-		m, err := regexp.Match(`^".*"$`, v)
-		if err != nil {
-			panic(errors.Wrap(err, "regexp failed"))
-		}
-		if m {
-			s := string(v)
-			s = s[1 : len(s)-1]
-			s = strings.ReplaceAll(s, `\"`, `"`)
-			s = strings.ReplaceAll(s, `\\`, `\`)
-			v = []byte(s)
+		if v[0] == '"' {
+			var str string
+			if err := json.Unmarshal(v, &str); err != nil {
+				panic(errors.Wrap(err, "cannot unquote a string"))
+			}
+			v = []byte(str)
 		}
 
 		attrs = append(attrs, abci.EventAttribute{
-- 
2.43.0


From 303e5df33361bac9bf14b84f969a6ffc1353ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 35/49] fix: import staff validators who are outside the
 referral program

---
 x/noding/keeper/keeper.go          | 11 ++++++++---
 x/noding/types/expected_keepers.go |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 51ef889..cc06a4e 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -624,9 +624,14 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 func (k Keeper) SetNonActiveValidators(ctx sdk.Context, validators []types.Validator) error {
 	for _, v := range validators {
 		acc := v.GetAccount()
-		stake, err := k.referralKeeper.GetDelegatedInNetwork(ctx, acc.String(), 10)
-		if err != nil {
-			return errors.Wrap(err, "cannot obtain stake")
+		stake := sdk.ZeroInt()
+		// Staff could be appointed from outside of the referral
+		if info, err := k.referralKeeper.Get(ctx, acc.String()); err != nil {
+			return errors.Wrap(err, "cannot obtain referral data")
+		} else if !info.IsEmpty() {
+			if stake, err = k.referralKeeper.GetDelegatedInNetwork(ctx, acc.String(), 10); err != nil {
+				return errors.Wrap(err, "cannot obtain stake")
+			}
 		}
 		if err := k.set(ctx, acc, v.ToInfo(stake.Int64())); err != nil {
 			return err
diff --git a/x/noding/types/expected_keepers.go b/x/noding/types/expected_keepers.go
index 92edc34..5feed8d 100644
--- a/x/noding/types/expected_keepers.go
+++ b/x/noding/types/expected_keepers.go
@@ -17,6 +17,7 @@ type ParamSubspace interface {
 }
 
 type ReferralKeeper interface {
+	Get(ctx sdk.Context, acc string) (referral.Info, error)
 	GetStatus(ctx sdk.Context, acc string) (referral.Status, error)
 	GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error)
 }
-- 
2.43.0


From 5dd14d07c2929faf82776fa6751dfa26a5476403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 36/49] fix: keep the last government member

---
 x/voting/keeper/government.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index dd9f76b..33fa939 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -33,6 +33,11 @@ func (k Keeper) SetGovernment(ctx sdk.Context, gov types.Government) {
 func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
 	govs.Remove(gov)
+	if len(govs.Members) == 0 {
+		// Nobody would be able to propose anything ever again
+		k.Logger(ctx).Error("cannot remove the last government member", "acc", gov)
+		return
+	}
 	k.SetGovernment(ctx, govs)
 }
 
-- 
2.43.0


From 4039efd3251fba2e423ba5dcc23533af77d0c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 37/49] fix: refuse names that aren't valid UTF-8

---
 x/profile/types/msgs.go | 5 +++--
 x/voting/types/args.go  | 5 +++++
 x/voting/types/types.go | 8 ++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 77aeddc..430a97c 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
@@ -122,7 +123,7 @@ func validateNickname(s string) error {
 	if len(s) == 0 {
 		return nil
 	}
-	if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
+	if strings.ContainsAny(s, ForbiddenNicknameCharacters) || !utf8.ValidString(s) {
 		return ErrNicknameInvalidChars
 	}
 	if len(s) < 3 {
@@ -158,7 +159,7 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 			}
 			s := val.String_
 			if len(s) != 0 {
-				if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
+				if strings.ContainsAny(s, ForbiddenNicknameCharacters) || !utf8.ValidString(s) {
 					return sdkerrors.Wrapf(ErrNicknameInvalidChars, "wrong update #%d value", i)
 				}
 				if len(s) < 3 {
diff --git a/x/voting/types/args.go b/x/voting/types/args.go
index 50cecb1..cce0832 100644
--- a/x/voting/types/args.go
+++ b/x/voting/types/args.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"unicode/utf8"
+
 	"github.com/pkg/errors"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -17,6 +19,9 @@ func (args *SoftwareUpgradeArgs) Validate() error {
 	if args.Name == "" {
 		return errors.New("empty upgrade name")
 	}
+	if !utf8.ValidString(args.Name) || !utf8.ValidString(args.Info) {
+		return errors.New("upgrade name and info must be valid UTF-8 strings")
+	}
 	if args.Height > 0 {
 		return errors.New("upgrade height is deprecated, use time instead")
 	}
diff --git a/x/voting/types/types.go b/x/voting/types/types.go
index 2b6db6a..809c9c2 100644
--- a/x/voting/types/types.go
+++ b/x/voting/types/types.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"unicode/utf8"
+
 	"github.com/pkg/errors"
 	"gopkg.in/yaml.v3"
 
@@ -31,6 +33,9 @@ func (p Proposal) Validate() error {
 	if p.Name == "" {
 		return errors.New("invalid name: empty string")
 	}
+	if !utf8.ValidString(p.Name) {
+		return errors.New("invalid name: not a valid UTF-8 string")
+	}
 	if _, err := sdk.AccAddressFromBech32(p.Author); err != nil {
 		return errors.Wrap(err, "invalid author")
 	}
@@ -420,6 +425,9 @@ func (p Poll) Validate() error {
 	if len(p.Name)+len(p.Question) == 0 {
 		return errors.New("neither name nor question specified")
 	}
+	if !utf8.ValidString(p.Name) || !utf8.ValidString(p.Question) {
+		return errors.New("name and question must be valid UTF-8 strings")
+	}
 	if _, err := sdk.AccAddressFromBech32(p.Author); err != nil {
 		return errors.Wrap(err, "cannot parse author")
 	}
-- 
2.43.0


From aedf40c669d2e5abb90490139569c70a634767c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 38/49] fix: count a poll answer once however its author's
 address is spelled

---
 x/voting/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 1ffd218..d47cc70 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -589,6 +589,7 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 	if err != nil {
 		panic(errors.Wrap(err, "cannot parse acc address"))
 	}
+	acc = addr.String() // an address may be written in upper case as well
 
 	switch r := poll.Requirements.(type) {
 	case *types.Poll_CanValidate:
-- 
2.43.0


From 67f3c8be1e10e8c2813a803b0e2938566c48adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 39/49] fix: refuse fractions with zero denominators

---
 util/fraction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fraction.go b/util/fraction.go
index 195a69b..b5306b9 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -122,6 +122,9 @@ func ParseFraction(s string) (Fraction, error) {
 			if err != nil {
 				return Fraction{}, err
 			}
+			if denom.Sign() == 0 {
+				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: %s", s)
+			}
 		} else {
 			denom = big.NewInt(1)
 		}
-- 
2.43.0


From 87d68fd2cee638c4c8c61b4c92e5ca19b91ef35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 40/49] fix: read fractions with leading zeros as decimal ones

---
 util/fraction.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/util/fraction.go b/util/fraction.go
index b5306b9..dbfeddb 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -99,7 +99,6 @@ func ParseFraction(s string) (Fraction, error) {
 	var (
 		num   = &big.Int{}
 		denom = &big.Int{}
-		err   error
 	)
 
 	if s == "" || s == "nil" {
@@ -118,10 +117,7 @@ func ParseFraction(s string) (Fraction, error) {
 			return Fraction{}, fmt.Errorf("invalid fraction format, 'x%' or 'x/y' expected: " + s)
 		}
 		if len(match) > 2 && len(match[2]) > 0 {
-			err = denom.UnmarshalText([]byte(match[2]))
-			if err != nil {
-				return Fraction{}, err
-			}
+			denom.SetString(match[2], 10)
 			if denom.Sign() == 0 {
 				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: %s", s)
 			}
@@ -130,10 +126,7 @@ func ParseFraction(s string) (Fraction, error) {
 		}
 	}
 
-	err = num.UnmarshalText([]byte(match[1]))
-	if err != nil {
-		return Fraction{}, err
-	}
+	num.SetString(match[1], 10)
 
 	return Fraction{num, denom}, nil
 }
-- 
2.43.0


From 2106619721709a78fea48049ac0275ce349700ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 41/49] fix: refuse a delegation amount followed by garbage in
 the CLI

---
 x/delegating/client/cli/tx.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/x/delegating/client/cli/tx.go b/x/delegating/client/cli/tx.go
index 00bbdf3..5458179 100644
--- a/x/delegating/client/cli/tx.go
+++ b/x/delegating/client/cli/tx.go
@@ -2,7 +2,9 @@ package cli
 
 import (
 	"fmt"
+	"strconv"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 
 	"github.com/cosmos/cosmos-sdk/client"
@@ -50,10 +52,9 @@ func GetCmdDelegate() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgDelegate(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
@@ -87,10 +88,9 @@ func GetCmdRevoke() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgRevoke(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
@@ -124,10 +124,9 @@ func GetCmdExpressRevoke() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgExpressRevoke(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
-- 
2.43.0


From 8a597239011ed43a0c787c51f2263504b6035428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 42/49] fix: let a key name be used in the CLI commands on, off
 and unjail

---
 x/noding/client/cli/tx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/noding/client/cli/tx.go b/x/noding/client/cli/tx.go
index 9cd8430..0839276 100644
--- a/x/noding/client/cli/tx.go
+++ b/x/noding/client/cli/tx.go
@@ -48,7 +48,7 @@ func cmdOn() *cobra.Command {
 			}
 
 			msg := &types.MsgOn{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 				PubKey:  args[1],
 			}
 			err = msg.ValidateBasic()
@@ -79,7 +79,7 @@ func cmdOff() *cobra.Command {
 			}
 
 			msg := &types.MsgOff{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 			}
 			err = msg.ValidateBasic()
 			if err != nil {
@@ -109,7 +109,7 @@ func cmdUnjail() *cobra.Command {
 			}
 
 			msg := &types.MsgUnjail{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 			}
 			err = msg.ValidateBasic()
 			if err != nil {
-- 
2.43.0


From d81c17e45787fc39d2c586e9ff3e2d6ee51005e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 43/49] fix: let a poll be limited by status in the CLI

---
 x/voting/client/cli/tx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/voting/client/cli/tx.go b/x/voting/client/cli/tx.go
index c6a3a2b..7843b57 100644
--- a/x/voting/client/cli/tx.go
+++ b/x/voting/client/cli/tx.go
@@ -1773,7 +1773,7 @@ func cmdStartPoll() *cobra.Command {
 
 			if req := args[1]; req == "validators" {
 				poll.Requirements = &types.Poll_CanValidate{CanValidate: &types.Poll_Unit{}}
-			} else if m := regexp.MustCompile(`/^status:(\d+)|([A-Za-z_]+)$/`).FindStringSubmatch(req); m != nil {
+			} else if m := regexp.MustCompile(`^status:(?:(\d+)|([A-Za-z_]+))$`).FindStringSubmatch(req); m != nil {
 				var status referral.Status
 				if len(m[1]) > 0 {
 					if s, err := strconv.Atoi(m[1]); err != nil {
-- 
2.43.0


From 5552552e9175fe2a719037e86dcda32495364931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 44/49] fix: heed the limit and page arguments of the CLI
 earner list

---
 x/earning/client/cli/query.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/earning/client/cli/query.go b/x/earning/client/cli/query.go
index 153beae..ef1fa10 100644
--- a/x/earning/client/cli/query.go
+++ b/x/earning/client/cli/query.go
@@ -3,7 +3,9 @@ package cli
 import (
 	"context"
 	"fmt"
+	"strconv"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
 
@@ -68,7 +70,7 @@ func getCmdList() *cobra.Command {
 		Use:   "list [limit [page]]",
 		Short: "Get a loaded earner list",
 		Args:  cobra.MaximumNArgs(2),
-		RunE: func(cmd *cobra.Command, _ []string) error {
+		RunE: func(cmd *cobra.Command, args []string) error {
 			clientCtx, err := client.GetClientQueryContext(cmd)
 			if err != nil {
 				return err
@@ -78,6 +80,20 @@ func getCmdList() *cobra.Command {
 				Limit: int32(viper.GetInt(FlagLimit)),
 				Page:  int32(viper.GetInt(FlagPage)),
 			}
+			if len(args) > 0 {
+				if i, err := strconv.ParseInt(args[0], 10, 32); err != nil {
+					return errors.Wrap(err, "cannot parse limit")
+				} else {
+					req.Limit = int32(i)
+				}
+			}
+			if len(args) > 1 {
+				if i, err := strconv.ParseInt(args[1], 10, 32); err != nil {
+					return errors.Wrap(err, "cannot parse page")
+				} else {
+					req.Page = int32(i)
+				}
+			}
 
 			res, err := queryClient.List(context.Background(), req)
 			if err != nil {
-- 
2.43.0


From 7cf8cb788f5b2f384037a1138650f88a8e44b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 45/49] fix: update the score of a validator who's lost their
 status

---
 x/noding/keeper/keeper.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index cc06a4e..dcd85cd 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -254,23 +254,27 @@ func (k Keeper) SwitchOff(ctx sdk.Context, accAddr sdk.AccAddress) error {
 }
 
 func (k Keeper) OnStatusUpdate(ctx sdk.Context, acc sdk.AccAddress) error {
-	is, err := k.IsValidator(ctx, acc)
+	if !k.has(ctx, acc) {
+		return nil
+	}
+	isV, err := k.IsValidator(ctx, acc)
 	if err != nil {
 		return err
 	}
-	if !is {
-		return nil
-	}
 
-	is, delegation, reason, err := k.IsQualified(ctx, acc)
+	isQ, delegation, reason, err := k.IsQualified(ctx, acc)
 	if err != nil {
 		return err
 	}
-	if is {
-		// the status determines which part of the network counts
-		return k.update(ctx, acc, func(d *types.Info) (save bool) {
-			return d.UpdateScore(delegation.Int64())
-		})
+	// the status determines which part of the network counts
+	err = k.update(ctx, acc, func(d *types.Info) (save bool) {
+		return d.UpdateScore(delegation.Int64())
+	})
+	if err != nil {
+		return err
+	}
+	if !isV || isQ {
+		return nil
 	}
 
 	k.Logger(ctx).Info("not qualified anymore, banishing from validators", "account", acc)
-- 
2.43.0


From e36800a48ce335967cd398df5c131a6444da4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 46/49] fix: don't give a discount for having less than the
 base storage

---
 x/profile/keeper/subscription.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index f0ab455..ce5e52f 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -65,14 +65,15 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 					MulInt64(int64(p.StorageGbPrice)).
 					Mul(time).Reduce(),
 			)
-			if storageFeeFrac.IsNegative() {
-				storageFeeFrac = util.FractionZero()
-			}
 			profile.StorageLimit = storageB
 		}
 	} else {
 		profile.StorageLimit = storageB
 	}
+	// a limit may be less than the base storage, if the latter has been increased
+	if storageFeeFrac.IsNegative() {
+		storageFeeFrac = util.FractionZero()
+	}
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From 609b5b709bdae6b9dd877f0de4907783a5fd7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 47/49] fix: make a tariff payment fail instead of panicking at
 an absurd token rate

---
 util/fee.go               | 4 +++-
 x/profile/types/msgs.go   | 3 +++
 x/profile/types/params.go | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/fee.go b/util/fee.go
index 5374c12..0312e11 100644
--- a/util/fee.go
+++ b/util/fee.go
@@ -1,11 +1,13 @@
 package util
 
 import (
+	"math/big"
+
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
 func CalculateFee(amount sdk.Int, txFeeFraction Fraction, txFeeMaxAmount int64, forProposerFeeFraction, forCompanyFeeFraction Fraction) sdk.Int {
-	fee := sdk.NewInt(txFeeFraction.MulInt64(amount.Int64()).Int64())
+	fee := sdk.NewIntFromBigInt(txFeeFraction.Mul(Fraction{num: amount.BigInt(), denom: big.NewInt(1)}).BigInt())
 
 	maxFee := sdk.NewInt(txFeeMaxAmount)
 	if !maxFee.IsZero() && fee.GT(maxFee) {
diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 430a97c..14629b2 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -449,6 +449,9 @@ func (msg MsgSetRate) ValidateBasic() error {
 	if !msg.Value.IsPositive() {
 		return errors.New("value must be positive")
 	}
+	if !msg.Value.BigInt().IsInt64() {
+		return errors.New("value is too big")
+	}
 	return nil
 }
 
diff --git a/x/profile/types/params.go b/x/profile/types/params.go
index edf73f5..e36bed9 100644
--- a/x/profile/types/params.go
+++ b/x/profile/types/params.go
@@ -288,6 +288,9 @@ func validateTokenRate(i interface{}) error {
 	if !val.IsPositive() {
 		return errors.New("TokenRate must be positive")
 	}
+	if !val.BigInt().IsInt64() {
+		return errors.New("TokenRate is too big")
+	}
 	return nil
 }
 
-- 
2.43.0


From 45550d382af6ed895e388feab893352bc590c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 48/49] fix: accept a genesis with revocations that have been
 burnt completely

---
 x/delegating/types/genesis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/delegating/types/genesis.go b/x/delegating/types/genesis.go
index f71c839..824dc56 100644
--- a/x/delegating/types/genesis.go
+++ b/x/delegating/types/genesis.go
@@ -31,8 +31,9 @@ func ValidateGenesis(data GenesisState) error {
 			return errors.Wrapf(err, "invalid account #%d (%s)", i, acc.Address)
 		}
 		for j, revoke := range acc.Requests {
-			if !revoke.Amount.IsPositive() {
-				return errors.Errorf("invalid revoke #%d.%d (%s %s): amount is non-positive", i, j, acc.Address, revoke.Time.String())
+			// it's zero if everything's been burnt
+			if revoke.Amount.IsNegative() {
+				return errors.Errorf("invalid revoke #%d.%d (%s %s): amount is negative", i, j, acc.Address, revoke.Time.String())
 			}
 		}
 	}
-- 
2.43.0


From 30b7855c13d59cecee7f932dd65695fc780145af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 49/49] fix: heed custom pruning settings

With pruning = "custom" the pruning-keep-recent, pruning-keep-every and
pruning-interval settings were ignored in favour of the default strategy.
---
 cmd/artrd/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/artrd/main.go b/cmd/artrd/main.go
index c4c7bb5..67aa69d 100644
--- a/cmd/artrd/main.go
+++ b/cmd/artrd/main.go
@@ -24,7 +24,6 @@ import (
 	serverCmd "github.com/cosmos/cosmos-sdk/server/cmd"
 	serverTypes "github.com/cosmos/cosmos-sdk/server/types"
 	"github.com/cosmos/cosmos-sdk/store"
-	"github.com/cosmos/cosmos-sdk/store/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/rest"
 	"github.com/cosmos/cosmos-sdk/types/tx"
@@ -107,9 +106,14 @@ func newApp(ec app.EncodingConfig) serverTypes.AppCreator {
 			cache = store.NewCommitKVStoreCacheManager()
 		}
 
+		pruning, err := server.GetPruningOptionsFromFlags(appOpts)
+		if err != nil {
+			panic(err)
+		}
+
 		return app.NewArteryApp(
 			logger, db, traceStore, true, invCheckPeriod, ec,
-			baseapp.SetPruning(types.NewPruningOptionsFromString(viper.GetString("pruning"))),
+			baseapp.SetPruning(pruning),
 			baseapp.SetMinGasPrices(viper.GetString(server.FlagMinGasPrices)),
 			baseapp.SetHaltHeight(viper.GetUint64(server.FlagHaltHeight)),
 			baseapp.SetHaltTime(viper.GetUint64(server.FlagHaltTime)),
-- 
2.43.0

