From 5edc6ae96c038c0cb9ccbc8def739226ff30bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 01/44] fix: report correct register widths of ArrayNRegs
 access held in one register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From 2e6d097a082654be47fa49b5a48f00c534bd92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 02/44] fix: add every gap to the pool exactly once

---
 internal/gap/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..8b48c60 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -18,8 +18,8 @@ func (p *Pool) Add(g Gap) {
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
 		if len(p.arrays) == 0 {
 			p.arrays = append(p.arrays, g)
@@ -33,6 +33,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From 535cd5bd2370522371ec240b19ef9f4c1bf8baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 03/44] fix: keep write safety of a gap when its remainder is
 put back to the pool

---
 internal/reg/status.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..334dd29 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -17,9 +17,12 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The remainder shares the register with whatever precedes the gap.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +33,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -74,9 +77,12 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The remainder shares the register with whatever precedes the gap.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +93,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From 94360add03ffadf228bdc65f6652dbc2b1d61e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 04/44] fix: place non-atomic status arrays which do not fill
 their last register

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index 334dd29..11d5039 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -111,9 +111,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From dccd17139810b5f23e1c8e898191184f816b6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 05/44] fix: use width of ID and TIMESTAMP for their value and
 access

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 8b1bab9f051dd13cc589b3bcbcbd8aaa10c0993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 06/44] fix: place irq enable in its own register when bus is 1
 bit wide

---
 internal/reg/irq.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..01dce94 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,7 +32,12 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From 1b79bfd800d25a76f4cee911d8fb3731dbf67077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 07/44] fix: report correct start register width of
 ArrayNInRegMInEndReg access held in one register

---
 pkg/fbdl/types/access.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..114b896 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -297,6 +297,11 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 
 	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
 
+	startRegWidth := width * itemsInReg
+	if regCount == 1 {
+		startRegWidth = width * itemsInEndReg
+	}
+
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
 		RegCount:      regCount,
@@ -307,7 +312,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		EndAddr:       startAddr + regCount - 1,
 		StartBit:      0,
 		EndBit:        itemsInEndReg*width - 1,
-		StartRegWidth: width * itemsInReg,
+		StartRegWidth: startRegWidth,
 		EndRegWidth:   width * itemsInEndReg,
 	}
 }
-- 
2.43.0


From 6fe65cb0655b9af6097238dcbc73d03b07eaa01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 08/44] fix: align to power of 2 without floating point
 rounding

---
 internal/util/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 02bb8f7..8e7fa61 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,7 @@ package util
 
 import (
 	"fmt"
-	"math"
+	"math/bits"
 )
 
 const RepoIssueUrl = "https://github.com/Functional-Bus-Description-Language/go-fbdl/issues"
@@ -98,8 +98,12 @@ func IsValidInnerType(it string, ot string) bool {
 	return false
 }
 
+// AlignToPowerOf2 returns the smallest power of 2 not lower than n.
 func AlignToPowerOf2(n int64) int64 {
-	return int64(math.Pow(2, math.Ceil(math.Log2(float64(n)))))
+	if n <= 0 {
+		return 0
+	}
+	return 1 << bits.Len64(uint64(n-1))
 }
 
 // Aligns n to multiple of m.
-- 
2.43.0


From 35227df127e22fa02f00c724136307d564544583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 09/44] fix: compute bit width of range without floating point
 rounding

---
 pkg/fbdl/types/range.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..72445c6 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,10 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	if sr.End <= 0 {
+		return 1
+	}
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From 6472f050fa170ec3c453e27a105b44c12d3f2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 10/44] fix: refuse width property equal 0

---
 internal/ins/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ins/check.go b/internal/ins/check.go
index 9ff7c73..83bdf35 100644
--- a/internal/ins/check.go
+++ b/internal/ins/check.go
@@ -240,6 +240,12 @@ func checkProp(prop prs.Prop) error {
 				Toks: []tok.Token{prop.ValueTok},
 			}
 		}
+		if v == 0 && name == "width" {
+			return tok.Error{
+				Msg:  fmt.Sprintf(mustBePositiveMsg, name, v),
+				Toks: []tok.Token{prop.ValueTok},
+			}
+		}
 	default:
 		panic(fmt.Sprintf("checkProp() for property '%s' not yet implemented", name))
 	}
-- 
2.43.0


From 355bb2399bafcbbcb1db336c07faa4fcf1a7dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 11/44] fix: resolve argument lists of all symbols, not only up
 to the first one with inner symbols

---
 internal/ins/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From c197a2e80dbac6b916d5846303c26ff21c60770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 12/44] fix: bind parameters of types independently of
 arguments resolved for their base types

---
 internal/ins/ins.go        |  5 +++++
 internal/ins/type_chain.go | 22 +++++++++++++++-------
 internal/prs/inst.go       |  4 ----
 internal/prs/type.go       |  4 +++-
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..c98999e 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,6 +77,11 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				// Type with parameters can be instantiated only with arguments.
+				if t, ok := symbol.(*prs.Type); ok && len(t.Params()) > 0 {
+					continue
+				}
+
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..c5acec3 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -4,21 +4,29 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
+// typeChainIter returns iterator over the type chain.
+//
+// Parameters of types in the chain are bound to the arguments of their successors.
+// All parameters must be bound before the first type is returned,
+// as arguments can refer to the parameters of the type they are placed in.
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
+	for i := range tc {
+		if t, ok := tc[i].(*prs.Type); ok {
+			if (i + 1) < len(tc) {
+				t.BindParams(tc[i+1].ResolvedArgs())
+			} else {
+				t.BindParams(nil)
+			}
+		}
+	}
+
 	i := 0
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..9c7fad1 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..b89bec3 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -18,6 +18,7 @@ type Type struct {
 	params       []Param
 	args         ArgList
 	resolvedArgs map[string]Expr
+	boundParams  map[string]Expr
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.boundParams[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -60,6 +61,7 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
+func (t *Type) BindParams(args map[string]Expr)    { t.boundParams = args }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
-- 
2.43.0


From d8a7fdea2a369fc3144bf390f9ae30cca9e5ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 13/44] fix: use width of bus set in its type as default width
 of functionalities

---
 internal/ins/ins.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index c98999e..5dff759 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,10 +17,17 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
+	var prop prs.Prop
+	ok := false
+
+	tci := typeChainIter(resolveToBaseType(main))
+	for !ok {
+		typ, next := tci()
+		if !next {
+			busWidth = dfltBusWidth
+			return nil
+		}
+		prop, ok = typ.Props().Get("width")
 	}
 
 	v, err := prop.Value.Eval()
@@ -52,12 +59,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 7e5032d9fa6f24c77144ad3624b09c4889a24b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 14/44] fix: refuse missing, surplus, repeated and unknown
 arguments

---
 internal/ins/args.go | 85 ++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..b85f517 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -51,10 +51,8 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 }
 
 func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
-	var err error
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
-	inPositionalArgs := true
 
 	typeSymbol, err := symbol.GetType(symbol.Type())
 	if err != nil {
@@ -63,54 +61,49 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
-	var argName string
-	var argHasName bool
-	for i, p := range params {
-		if inPositionalArgs {
-			if i < len(args) {
-				argHasName = args[i].Name != ""
-				argName = args[i].Name
-			} else {
-				inPositionalArgs = false
-				argHasName = false
+	for i, a := range args {
+		name := a.Name
+		if name == "" {
+			if i >= len(params) {
+				return nil, fmt.Errorf(
+					"too many arguments for type '%s', got %d, want at most %d",
+					symbol.Type(), len(args), len(params),
+				)
 			}
+			name = params[i].Name
+		} else if !hasParam(params, name) {
+			return nil, fmt.Errorf("type '%s' has no parameter named '%s'", symbol.Type(), name)
+		}
 
-			if argHasName {
-				inPositionalArgs = false
-				if argName == p.Name {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					found := false
-					for _, ar := range args {
-						if ar.Name == p.Name {
-							resolvedArgs[p.Name] = ar.Value
-							found = true
-						}
-					}
-					if !found {
-						resolvedArgs[p.Name] = p.DfltValue
-					}
-				}
-			} else {
-				if i < len(args) {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					resolvedArgs[p.Name] = p.DfltValue
-				}
-			}
-		} else {
-			found := false
-			for _, ar := range args {
-				if ar.Name == p.Name {
-					resolvedArgs[p.Name] = ar.Value
-					found = true
-				}
-			}
-			if !found {
-				resolvedArgs[p.Name] = p.DfltValue
-			}
+		if _, ok := resolvedArgs[name]; ok {
+			return nil, fmt.Errorf(
+				"parameter '%s' of type '%s' already has an argument", name, symbol.Type(),
+			)
 		}
+		resolvedArgs[name] = a.Value
+	}
+
+	for _, p := range params {
+		if _, ok := resolvedArgs[p.Name]; ok {
+			continue
+		}
+		if p.DfltValue == nil {
+			return nil, fmt.Errorf(
+				"missing argument for parameter '%s' of type '%s'", p.Name, symbol.Type(),
+			)
+		}
+		resolvedArgs[p.Name] = p.DfltValue
 	}
 
 	return resolvedArgs, nil
 }
+
+func hasParam(params []prs.Param, name string) bool {
+	for _, p := range params {
+		if p.Name == name {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 14b06e3ad012f5dc260577362fecf49223c0b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:18 +0000
Subject: [PATCH 15/44] fix: convert time literals without integer overflow

---
 internal/prs/expr.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..4ae54a6 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -462,19 +462,20 @@ func MakeTime(e ast.Time, src []byte, s Scope) (Time, error) {
 }
 
 func (tim Time) Eval() (val.Value, error) {
-	v, _ := tim.v.Eval()
+	x := tim.v.x
 
 	var t val.Time
 
+	// Split into seconds and nanoseconds before scaling, so that scaling never overflows.
 	switch tim.unit {
 	case "s":
-		t = val.Time{S: int64(v.(val.Int)), Ns: 0}
+		t = val.Time{S: x, Ns: 0}
 	case "ms":
-		t = val.Time{S: 0, Ns: 1000000 * int64(v.(val.Int))}
+		t = val.Time{S: x / 1000, Ns: x % 1000 * 1000000}
 	case "us":
-		t = val.Time{S: 0, Ns: 1000 * int64(v.(val.Int))}
+		t = val.Time{S: x / 1000000, Ns: x % 1000000 * 1000}
 	case "ns":
-		t = val.Time{S: 0, Ns: int64(v.(val.Int))}
+		t = val.Time{S: 0, Ns: x}
 	}
 
 	t.Normalize()
-- 
2.43.0


From f19005c94d79f6775b78ef90088cf6640dc5b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 16/44] fix: refuse integer expressions without exact result
 instead of wrapping around or panicking

---
 internal/prs/arith.go | 111 ++++++++++++++++++++++++++++++++++++++++++
 internal/prs/expr.go  |  47 +++++++++++++++---
 2 files changed, 150 insertions(+), 8 deletions(-)
 create mode 100644 internal/prs/arith.go

diff --git a/internal/prs/arith.go b/internal/prs/arith.go
new file mode 100644
index 0000000..5bbb8c9
--- /dev/null
+++ b/internal/prs/arith.go
@@ -0,0 +1,111 @@
+package prs
+
+import (
+	"math"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
+)
+
+// Below functions evaluate integer operators.
+// The returned bool is false if the result cannot be represented as integer.
+
+func addInt(x, y val.Int) (val.Int, bool) {
+	if (y > 0 && x > math.MaxInt64-y) || (y < 0 && x < math.MinInt64-y) {
+		return 0, false
+	}
+	return x + y, true
+}
+
+func subInt(x, y val.Int) (val.Int, bool) {
+	if (y < 0 && x > math.MaxInt64+y) || (y > 0 && x < math.MinInt64+y) {
+		return 0, false
+	}
+	return x - y, true
+}
+
+func mulInt(x, y val.Int) (val.Int, bool) {
+	if x == 0 || y == 0 {
+		return 0, true
+	}
+
+	if x == -1 {
+		return negInt(y)
+	}
+	if y == -1 {
+		return negInt(x)
+	}
+
+	var ok bool
+	if (x > 0) == (y > 0) {
+		if x > 0 {
+			ok = x <= math.MaxInt64/y
+		} else {
+			ok = x >= math.MaxInt64/y
+		}
+	} else {
+		if x > 0 {
+			ok = x <= math.MinInt64/y
+		} else {
+			ok = x >= math.MinInt64/y
+		}
+	}
+	if !ok {
+		return 0, false
+	}
+
+	return x * y, true
+}
+
+func negInt(x val.Int) (val.Int, bool) {
+	if x == math.MinInt64 {
+		return 0, false
+	}
+	return -x, true
+}
+
+// expInt requires y to be non negative.
+func expInt(x, y val.Int) (val.Int, bool) {
+	switch x {
+	case 0:
+		if y > 0 {
+			return 0, true
+		}
+		return 1, true
+	case 1:
+		return 1, true
+	case -1:
+		if y%2 == 0 {
+			return 1, true
+		}
+		return -1, true
+	}
+
+	r := val.Int(1)
+	for range y {
+		var ok bool
+		r, ok = mulInt(r, x)
+		if !ok {
+			return 0, false
+		}
+	}
+
+	return r, true
+}
+
+// lshiftInt requires y to be non negative.
+func lshiftInt(x, y val.Int) (val.Int, bool) {
+	if x == 0 {
+		return 0, true
+	}
+
+	r := x
+	for range y {
+		var ok bool
+		r, ok = mulInt(r, 2)
+		if !ok {
+			return 0, false
+		}
+	}
+
+	return r, true
+}
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 4ae54a6..43fbb1c 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -2,7 +2,6 @@ package prs
 
 import (
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 
@@ -74,6 +73,7 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	op := be.op // Operator
 
 	var v val.Value
+	ok := true // False if result cannot be represented as integer
 
 	switch x := x.(type) {
 	case val.Int:
@@ -81,22 +81,30 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Add:
 			switch y := y.(type) {
 			case val.Int:
-				v = x + y
+				v, ok = addInt(x, y)
 			}
 		case tok.Sub:
 			switch y := y.(type) {
 			case val.Int:
-				v = x - y
+				v, ok = subInt(x, y)
 			}
 		case tok.Mul:
 			switch y := y.(type) {
 			case val.Int:
-				v = x * y
+				v, ok = mulInt(x, y)
 			}
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
-				if x%y == 0 {
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				if y == -1 {
+					v, ok = negInt(x)
+				} else if x%y == 0 {
 					v = x / y
 				} else {
 					v = val.Float(float64(x) / float64(y))
@@ -105,12 +113,24 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("negative exponent %d", y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v, ok = expInt(x, y)
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -121,7 +141,7 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
-				v = x << y
+				v, ok = lshiftInt(x, y)
 			default:
 				return nil, tok.Error{
 					Msg:  fmt.Sprintf("right operand of left shift must be of type integer, current type %s", y.Type()),
@@ -165,6 +185,13 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		}
 	}
 
+	if !ok {
+		return nil, tok.Error{
+			Msg:  fmt.Sprintf("result of %s operator is out of integer range", op.Name()),
+			Toks: []tok.Token{op},
+		}
+	}
+
 	if v != nil {
 		return v, nil
 	}
@@ -505,7 +532,11 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
-			return -x, nil
+			v, ok := negInt(x)
+			if !ok {
+				return nil, fmt.Errorf("unary expression, result of '-' operator is out of integer range")
+			}
+			return v, nil
 		default:
 			panic("operator not yet supported")
 		}
-- 
2.43.0


From a7eef2ef64bc1ba9a30d5a203d41e9ac2435a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 17/44] fix: split words at every hyphen and refuse incomplete
 qualified identifiers

---
 internal/tok/parse.go | 221 +++++++++++++-----------------------------
 1 file changed, 70 insertions(+), 151 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..d8aaa45 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -755,193 +755,112 @@ func parseHexInt(ctx *context) (Int, error) {
 }
 
 // isValidQualifiedIdentifier returns false if symbol name in
-// qualified identifier does not start with upper case letter.
+// qualified identifier does not start with letter, or if the
+// identifier does not consist of exactly the package and symbol names.
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
+	if len(aux) != 2 || len(aux[1]) == 0 {
+		return false
+	}
 	sym := aux[1]
 	r := []rune(string(sym))[0]
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
 
-// TODO: Refactor, too complex, split into 2 (or more) functions.
 func parseWord(ctx *context, toks *[]Token) (Token, error) {
-	var t Token
-	defer func() { ctx.idx = t.End() + 1 }()
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
-	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
+	if hasHyphen {
+		// Firstly assume word is a property, properties are properties only if they are in valid place.
+		t := parseProperty(word, ctx)
+		if _, ok := t.(None); !ok && isPropertyPlace(*toks) {
+			ctx.idx += len(word)
+			return t, nil
 		}
-	} else if hasDot {
-		// It is qualified identifier
-		t = QualIdent{position{
-			start:  ctx.idx,
-			end:    ctx.idx + len(word) - 1,
-			line:   ctx.line,
-			column: ctx.col(ctx.idx),
-			src:    ctx.src,
-			path:   ctx.path,
-		}}
 
+		// It is part of an expression, the word ends before the first hyphen.
+		word = word[:bytes.IndexByte(word, '-')]
+		hasDot = bytes.IndexByte(word, '.') >= 0
+	}
+
+	pos := position{ctx.idx, ctx.idx + len(word) - 1, ctx.line, ctx.col(ctx.idx), ctx.src, ctx.path}
+
+	if hasDot {
+		// It is qualified identifier
+		t := QualIdent{pos}
 		if !isValidQualifiedIdentifier(word) {
-			return t, Error{qualIdentErrMsg, []Token{t}}
+			return t, Error{"symbol name in qualified identifier must start with letter", []Token{t}}
 		}
-
+		ctx.idx += len(word)
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
+	// Firstly assume word is a keyword
+	t := parseKeyword(word, ctx)
+	// If it is not a keyword, then it might be a property or identifier.
+	if _, ok := t.(None); ok {
+		t = parseProperty(word, ctx)
+		// If it is not property, then it must be an identifier.
+		// However, properties are properties only if they are in valid place,
+		// otherwise, these are regular identifiers.
+		if _, ok := t.(None); ok || !isPropertyPlace(*toks) {
+			t = Ident{pos}
 		}
-		return i1, s, i2
 	}
 
-	if !hasHyphen {
-		// Firstly assume word is a keyword
-		t = parseKeyword(word, ctx)
-		// If it is not a keyword, then it might be a property or identifier.
-		if _, ok := t.(None); ok {
-			t = parseProperty(word, ctx)
-			// If it is not property, then it must be an identifier.
-			if _, ok := t.(None); ok {
-				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-			} else {
-				// However, properties are properties only if they are in valid place,
-				// otherwise, these are regular identifiers.
-				if prevTok, ok := lastToken(*toks); ok {
-					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
-						// Do nothing, this is property
-					default:
-						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-					}
-				}
-			}
-		}
+	prevTok, ok := lastToken(*toks)
 
-		// Allow functionality keywords to be instantiation names
-		if _, ok := t.(Functionality); ok {
-			if prevTok, ok := lastToken(*toks); ok {
-				switch prevTok.(type) {
-				case Newline, Indent, Dedent:
-					t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-				}
-			}
-			if len(*toks) == 0 {
-				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-			}
-		}
-	} else {
-		// Firstly assume word is a property
-		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
+	// Allow functionality keywords to be instantiation names
+	if _, isFunc := t.(Functionality); isFunc {
+		if !ok {
+			t = Ident{pos}
 		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
 			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
+			case Newline, Indent, Dedent:
+				t = Ident{pos}
 			}
 		}
 	}
 
 	// The word might be the unit of time literal
-	if _, ok := t.(Ident); ok {
-		if prevTok, ok := lastToken(*toks); ok {
-			if _, ok := prevTok.(Int); ok {
-				switch string(word) {
-				case "ns", "us", "ms", "s":
-					t = Time{
-						position{
-							prevTok.Start(),
-							t.End(),
-							prevTok.Line(),
-							prevTok.Column(),
-							ctx.src,
-							ctx.path,
-						},
-					}
-					// Remove previous Int from the list
-					// New Time token will be inserted
-					*toks = (*toks)[:len(*toks)-1]
+	if _, isIdent := t.(Ident); isIdent && ok {
+		if _, isInt := prevTok.(Int); isInt {
+			switch string(word) {
+			case "ns", "us", "ms", "s":
+				t = Time{
+					position{
+						prevTok.Start(),
+						pos.end,
+						prevTok.Line(),
+						prevTok.Column(),
+						ctx.src,
+						ctx.path,
+					},
 				}
+				// Remove previous Int from the list
+				// New Time token will be inserted
+				*toks = (*toks)[:len(*toks)-1]
 			}
 		}
 	}
 
+	ctx.idx += len(word)
 	return t, nil
 }
 
+// isPropertyPlace returns true if the token following toks can be a property.
+func isPropertyPlace(toks []Token) bool {
+	prevTok, ok := lastToken(toks)
+	if !ok {
+		return true
+	}
+	switch prevTok.(type) {
+	case Newline, Semicolon, Indent:
+		return true
+	}
+	return false
+}
+
 func parseKeyword(word []byte, ctx *context) Token {
 	s := ctx.idx
 	e := s + len(word) - 1
-- 
2.43.0


From 76cba05d101f25e41eda81d07dc40730c6642c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 18/44] fix: count lines within multi line strings and keep all
 characters of the string token

---
 internal/tok/join.go  | 8 ++------
 internal/tok/parse.go | 8 +++++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/tok/join.go b/internal/tok/join.go
index f3372e0..93be1a2 100644
--- a/internal/tok/join.go
+++ b/internal/tok/join.go
@@ -5,16 +5,12 @@ package tok
 //
 // It panics if:
 //   - tokens are from different source,
-//   - tokens are not in the same line,
 //   - tok1 is after tok2.
 func Join(tok1, tok2 Token) Token {
-	if tok1.Line() != tok2.Line() {
+	if tok1.Path() != tok2.Path() {
 		panic("cannot join tokens from different files")
 	}
-	if tok1.Line() != tok2.Line() {
-		panic("cannot join tokens placed in different lines")
-	}
-	if tok1.Column() > tok2.Column() {
+	if tok1.Start() > tok2.Start() {
 		panic("cannot join tokens, tok1 starts after tok2")
 	}
 
diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index d8aaa45..22cbd3d 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -509,13 +509,15 @@ func parseString(ctx *context) (String, error) {
 		if ctx.end() {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
+		t.end = ctx.idx
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
-		}
 		if b == '"' {
 			break
 		}
+		if b == '\n' {
+			ctx.nlIdx = ctx.idx
+			ctx.line++
+		}
 	}
 	ctx.idx++
 	return t, nil
-- 
2.43.0


From 673b357b87d8c74a2e1b860ea76ee773bf5aa52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 19/44] fix: do not read behind the source when reporting an
 error at the end of file or newline

---
 internal/tok/error.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..ab980f3 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -62,19 +62,21 @@ func (err Error) code(tok Token) string {
 		lineStartIdx--
 	}
 
-	lineEndIdx := tok.End()
-	if _, ok := tok.(Newline); !ok {
-		for lineEndIdx < len(src)-1 {
-			if src[lineEndIdx+1] == '\n' {
+	// Index of the first byte after the line.
+	lineEndIdx := tok.End() + 1
+	switch tok.(type) {
+	case Newline, Eof:
+		lineEndIdx = tok.Start()
+	default:
+		for lineEndIdx < len(src) {
+			if src[lineEndIdx] == '\n' {
 				break
 			}
 			lineEndIdx++
 		}
-	} else {
-		lineEndIdx--
 	}
 
-	line := src[lineStartIdx : lineEndIdx+1]
+	line := src[lineStartIdx:lineEndIdx]
 
 	b.WriteRune(' ')
 	b.WriteString(lineNum)
-- 
2.43.0


From 49b75d8c88fb99341f95694afde250046da8a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:48 +0000
Subject: [PATCH 20/44] fix: refuse negation operator and call of qualified
 identifier instead of panicking

---
 internal/ast/expr.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..e3e384b 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -125,7 +125,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 	)
 
 	switch t := ctx.tok().(type) {
-	case tok.Neg, tok.Sub, tok.Add:
+	case tok.Sub, tok.Add:
 		expr, err = buildUnaryExpr(ctx)
 	case tok.Ident:
 		switch ctx.nextTok().(type) {
@@ -135,12 +135,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 			expr, err = buildIdent(ctx)
 		}
 	case tok.QualIdent:
-		switch ctx.nextTok().(type) {
-		case tok.LParen:
-			expr, err = buildCallExpr(ctx)
-		default:
-			expr, err = buildQualIdent(ctx)
-		}
+		expr, err = buildQualIdent(ctx)
 	case tok.Bool:
 		expr, err = buildBool(ctx)
 	case tok.Int:
-- 
2.43.0


From b4f296feaf956801a6cabd4814ebb167673aa260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 21/44] fix: evaluate parenthesized expressions

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 43fbb1c..254a9cd 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -44,6 +44,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
 		expr, err = MakeUnaryExpr(e, src, s)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case nil:
 		return nil, nil
 	default:
-- 
2.43.0


From 968c2443526cd97566ddc03f6e9088cc03f53c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:53 +0000
Subject: [PATCH 22/44] fix: refuse arguments for which built-in functions have
 no result

---
 internal/prs/call.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..11fd198 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -50,22 +50,29 @@ func evalBool(c Call) (val.Value, error) {
 	return nil, fmt.Errorf("invalid argument type '%s' for bool function", arg.Type())
 }
 
+// floatToInt converts f, which has no fractional part, to integer.
+func floatToInt(f float64) (val.Value, error) {
+	// -2^63 and 2^63 are exactly representable as float64.
+	if !(-(1<<63) <= f && f < 1<<63) {
+		return nil, fmt.Errorf("value %g is out of integer range", f)
+	}
+	return val.Int(int64(f)), nil
+}
+
 func evalCeil(c Call) (val.Value, error) {
 	arg, err := c.args[0].Eval()
 	if err != nil {
 		return nil, fmt.Errorf("ceil argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return floatToInt(math.Ceil(float64(arg)))
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	return nil, fmt.Errorf("invalid argument type '%s' for ceil function", arg.Type())
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -74,16 +81,14 @@ func evalFloor(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("floor argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return floatToInt(math.Floor(float64(arg)))
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	return nil, fmt.Errorf("invalid argument type '%s' for floor function", arg.Type())
 }
 
 func evalLog2(c Call) (val.Value, error) {
@@ -108,6 +113,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if !(f > 0) {
+		return nil, fmt.Errorf("log2 argument must be positive, current value %g", f)
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -138,6 +147,10 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if !(f > 0) {
+		return nil, fmt.Errorf("log10 argument must be positive, current value %g", f)
+	}
+
 	r := math.Log10(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
-- 
2.43.0


From e4ef0c3fd35d272ba0cadb263d3ffd447d945ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 23/44] fix: logarithms are integers exactly for powers of the
 base

---
 internal/prs/call.go | 57 +++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 11fd198..5b858ca 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -97,32 +97,28 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("log2 argument evaluation: %v", err)
 	}
 
-	argType := "unknown"
 	f := float64(0.0)
 
 	switch arg := arg.(type) {
 	case val.Int:
-		argType = "int"
+		if e, ok := exactLog(int64(arg), 2); ok {
+			return val.Int(e), nil
+		}
 		f = float64(arg)
 	case val.Float:
-		argType = "float"
 		f = float64(arg)
-	}
-
-	if argType != "int" && argType != "float" {
-		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
+		if frac, exp := math.Frexp(f); frac == 0.5 {
+			return val.Int(exp - 1), nil
+		}
+	default:
+		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", arg.Type())
 	}
 
 	if !(f > 0) {
 		return nil, fmt.Errorf("log2 argument must be positive, current value %g", f)
 	}
 
-	r := math.Log2(f)
-	if r == float64(int64(r)) {
-		return val.Int(int64(r)), nil
-	}
-
-	return val.Float(r), nil
+	return val.Float(math.Log2(f)), nil
 }
 
 func evalLog10(c Call) (val.Value, error) {
@@ -131,30 +127,43 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("log10 argument evaluation: %v", err)
 	}
 
-	argType := "unknown"
 	f := float64(0.0)
 
 	switch arg := arg.(type) {
 	case val.Int:
-		argType = "int"
+		if e, ok := exactLog(int64(arg), 10); ok {
+			return val.Int(e), nil
+		}
 		f = float64(arg)
 	case val.Float:
-		argType = "float"
 		f = float64(arg)
-	}
-
-	if argType != "int" && argType != "float" {
-		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
+		if 1 <= f && f < 1<<63 && f == math.Trunc(f) {
+			if e, ok := exactLog(int64(f), 10); ok {
+				return val.Int(e), nil
+			}
+		}
+	default:
+		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", arg.Type())
 	}
 
 	if !(f > 0) {
 		return nil, fmt.Errorf("log10 argument must be positive, current value %g", f)
 	}
 
-	r := math.Log10(f)
-	if r == float64(int64(r)) {
-		return val.Int(int64(r)), nil
+	return val.Float(math.Log10(f)), nil
+}
+
+// exactLog returns logarithm of x if x is a power of base.
+func exactLog(x int64, base int64) (int64, bool) {
+	if x < 1 {
+		return 0, false
+	}
+
+	e := int64(0)
+	for x%base == 0 {
+		x /= base
+		e++
 	}
 
-	return val.Float(r), nil
+	return e, x == 1
 }
-- 
2.43.0


From c0cdc5dd36b15fa835544d6e0fea3d30f6ccdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 24/44] fix: refuse circular definitions of constants and
 parameters

---
 internal/prs/const.go | 16 ++++++++++++++++
 internal/prs/expr.go  |  4 ++--
 internal/prs/type.go  | 15 +++++++++++----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..805dd80 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,12 +5,28 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool // True during evaluation, used for detection of circular definitions
+}
+
+// eval evaluates constant value.
+func (c *Const) eval() (val.Value, error) {
+	if c.evaluating {
+		return nil, fmt.Errorf("circular definition")
+	}
+
+	c.evaluating = true
+	v, err := c.Value.Eval()
+	c.evaluating = false
+
+	return v, err
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 254a9cd..d840c5f 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -371,7 +371,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -393,7 +393,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
diff --git a/internal/prs/type.go b/internal/prs/type.go
index b89bec3..625dbef 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -18,7 +18,7 @@ type Type struct {
 	params       []Param
 	args         ArgList
 	resolvedArgs map[string]Expr
-	boundParams  map[string]Expr
+	boundParams  map[string]*Const
 
 	props PropContainer
 	symbolContainer
@@ -30,8 +30,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.boundParams[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.boundParams[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -61,12 +61,19 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
-func (t *Type) BindParams(args map[string]Expr)    { t.boundParams = args }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+// BindParams binds type parameters to the arguments.
+func (t *Type) BindParams(args map[string]Expr) {
+	t.boundParams = make(map[string]*Const)
+	for name, v := range args {
+		t.boundParams[name] = &Const{Value: v}
+	}
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From 16867a36eee6113933df2aeda08c9e73c535ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 25/44] fix: refuse types and functionalities which contain
 themselves

---
 internal/ins/ins.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 5dff759..8f183b1 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -103,7 +103,19 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// underInstantiation is a set of functionalities which instantiation has not yet finished.
+var underInstantiation = map[prs.Functionality]bool{}
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
+	if underInstantiation[pf] {
+		log.Fatalf(
+			"%s:%d:%d: '%s' is instantiated within itself",
+			pf.File().Path, pf.Line(), pf.Col(), pf.Name(),
+		)
+	}
+	underInstantiation[pf] = true
+	defer delete(underInstantiation, pf)
+
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
@@ -147,6 +159,20 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+	return resolveTypeChain(f, map[prs.Functionality]bool{})
+}
+
+// resolveTypeChain returns type chain of f.
+// Visited is the set of functionalities already found in the chain.
+func resolveTypeChain(f prs.Functionality, visited map[prs.Functionality]bool) []prs.Functionality {
+	if visited[f] {
+		log.Fatalf(
+			"%s:%d:%d: circular definition of type '%s'",
+			f.File().Path, f.Line(), f.Col(), f.Name(),
+		)
+	}
+	visited[f] = true
+
 	typeChain := []prs.Functionality{}
 
 	if !util.IsBaseType(f.Type()) {
@@ -165,7 +191,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveTypeChain(typeFn, visited)...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From 679ac1eeaa847469d2c05dc50907d4fbe772ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 26/44] fix: refuse arrays without items and main which is not
 a bus

---
 internal/ins/common.go | 12 +++++++++---
 internal/ins/ins.go    |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..2ecb1e7 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,15 +26,21 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
 
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
+		if count == 0 {
+			return fn.Func{}, tok.Error{
+				Msg:  fmt.Sprintf("functionality '%s' has array size 0", inst.Name()),
+				Toks: []tok.Token{inst.Tok()},
+			}
+		}
 		if count < 0 {
 			return fn.Func{}, tok.Error{
 				Msg:  fmt.Sprintf("functionality '%s' has negative array size %d", inst.Name(), count),
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 8f183b1..e609c9d 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -92,7 +92,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-					mainBus = f.(*fn.Block)
+					mainBus, ok = f.(*fn.Block)
+					if !ok {
+						return nil, nil, fmt.Errorf("main bus '%s' is not a bus, its base type is '%s'", mainName, f.Type())
+					}
 				}
 			}
 		}
-- 
2.43.0


From 61ae381d91872cb3f6f90779c4b14e9c668313d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 27/44] fix: use array size given in type definition

---
 internal/ins/common.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index 2ecb1e7..29c298b 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -23,9 +23,25 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	isArray := false
 	count := int64(1)
 
-	if inst.IsArray() {
+	tci := typeChainIter(typeChain)
+	for {
+		typ, ok := tci()
+		if !ok {
+			break
+		}
+		if typ.Count() == nil {
+			continue
+		}
+
+		if isArray {
+			return fn.Func{}, tok.Error{
+				Msg:  fmt.Sprintf("cannot set array size, size of array is already set in one of ancestor types of '%s'", inst.Name()),
+				Toks: []tok.Token{typ.Tok()},
+			}
+		}
 		isArray = true
-		v, err := inst.Count().Eval()
+
+		v, err := typ.Count().Eval()
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
 		}
-- 
2.43.0


From c13369a5af35ec94521b122a689643dbc3ceb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 28/44] fix: convert integers to bit strings exactly for any
 width and sign

---
 internal/val/bit_str.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..6d5d50f 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -132,8 +132,15 @@ func makeHexBitStr(s string) (BitStr, error) {
 func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	i := int64(v)
 
-	max := int64(math.Pow(float64(2), float64(width))) - int64(1)
-	min := -int64(math.Pow(float64(2), float64(width-1)))
+	// Bounds wider than int64 do not limit the value.
+	max := int64(math.MaxInt64)
+	if width < 63 {
+		max = int64(1)<<width - 1
+	}
+	min := int64(math.MinInt64)
+	if width < 64 {
+		min = -(int64(1) << (width - 1))
+	}
 
 	if i > max {
 		return BitStr(""),
@@ -149,21 +156,23 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
-	if i >= 0 {
-		var s string
-		if width%4 == 0 {
-			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
-		} else if width%3 == 0 {
-			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
-		} else {
-			s = fmt.Sprintf("b\"%0*b\"", width, i)
-		}
-
-		return BitStr(s), nil
+	format := byte('b')
+	digitWidth := int64(1)
+	if width%4 == 0 {
+		format = 'x'
+		digitWidth = 4
+	} else if width%3 == 0 {
+		format = 'o'
+		digitWidth = 3
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	s := []byte{format, '"'}
+	for pos := width - digitWidth; pos >= 0; pos -= digitWidth {
+		// Shift is arithmetic, so bits over the int64 range equal the sign bit.
+		digit := (i >> pos) & (1<<digitWidth - 1)
+		s = append(s, "0123456789abcdef"[digit])
+	}
+	s = append(s, '"')
 
-	//return BitStr(""), nil
+	return BitStr(string(s)), nil
 }
-- 
2.43.0


From c4606e10f368ea8c8f27c40dcd17fcd4fcf75dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:13 +0000
Subject: [PATCH 29/44] fix: extend octal bit strings

---
 pkg/fbdl/types/bit_str.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/bit_str.go b/pkg/fbdl/types/bit_str.go
index 57f0293..2d03ce5 100644
--- a/pkg/fbdl/types/bit_str.go
+++ b/pkg/fbdl/types/bit_str.go
@@ -59,7 +59,7 @@ func (bs BitStr) Extend(width int64) BitStr {
 	case 'b':
 		return extendBin(bs, width)
 	case 'o':
-		panic("not yet implemented")
+		return extendOctal(bs, width)
 	case 'x':
 		return extendHex(bs, width)
 	default:
@@ -110,6 +110,29 @@ func extendHex(bs BitStr, width int64) BitStr {
 	return extendBin(bs.ToBin(), width)
 }
 
+func extendOctal(bs BitStr, width int64) BitStr {
+	bitWidthDiff := width - bs.BitWidth()
+
+	if bitWidthDiff%3 == 0 {
+		s := make([]byte, width/3+3)
+
+		s[0] = 'o'
+		s[1] = '"'
+
+		for i := range bitWidthDiff / 3 {
+			s[2+i] = '0'
+		}
+		for i := range bs.CharWidth() {
+			s[2+bitWidthDiff/3+i] = string(bs)[2+i]
+		}
+
+		s[len(s)-1] = '"'
+		return BitStr(string(s))
+	}
+
+	return extendBin(bs.ToBin(), width)
+}
+
 func (bs BitStr) ToBin() BitStr {
 	if bs.IsBin() {
 		return bs
-- 
2.43.0


From ee52edb860117d8d13727fb66b59182dda274e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 30/44] fix: refuse functionalities with the same name
 regardless of their kinds

---
 internal/util/block/block.go | 15 +++++++++++++++
 internal/util/group/group.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From bb541d3cb57d6480b5cd9ca333d282da526f1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 31/44] fix: detect redefinition of float constants

---
 internal/util/constContainer/constContainer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
-- 
2.43.0


From 0eb3b9a0941b7ccf7323a7e00c35fd36812a114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 32/44] fix: refuse constants which cannot be exported instead
 of panicking or dropping them

---
 internal/ins/block.go                         |  4 +-
 internal/ins/const.go                         | 24 +++++++----
 internal/ins/group.go                         |  4 +-
 internal/ins/ins.go                           |  5 ++-
 .../util/constContainer/constContainer.go     | 41 +++++++++----------
 5 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..7006d6a 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -98,7 +98,9 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&blk.Consts, c.Name(), val)
+			if err := constContainer.AddConst(&blk.Consts, c.Name(), val); err != nil {
+				return err
+			}
 		}
 
 		_, ok := s.(*prs.Inst)
diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..939117f 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,37 +1,45 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
-func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
+func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
 	// TODO: Resolve name conflicts.
 	for name, pkgs := range packages {
 		if len(pkgs) > 1 {
-			panic("not yet implemented")
+			return nil, fmt.Errorf("constants of %d packages with the same name '%s' are not supported", len(pkgs), name)
 		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			p, err := constifyPkg(pkg)
+			if err != nil {
+				return nil, fmt.Errorf("package '%s': %v", name, err)
+			}
+			cPkgs[name] = p
 		}
 	}
 
-	return cPkgs
+	return cPkgs, nil
 }
 
-func constifyPkg(pp *prs.Package) *pkg.Package {
+func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			return nil, fmt.Errorf("cannot evaluate expression for const '%s': %v", c.Name(), err)
+		}
+		if err := constContainer.AddConst(&p.Consts, c.Name(), v); err != nil {
+			return nil, err
 		}
-		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
 
-	return &p
+	return &p, nil
 }
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..770344c 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -104,7 +104,9 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&grp.Consts, c.Name(), val)
+			if err := constContainer.AddConst(&grp.Consts, c.Name(), val); err != nil {
+				return err
+			}
 		}
 
 		_, ok := sym.(*prs.Inst)
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index e609c9d..d94de97 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -101,7 +101,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		}
 	}
 
-	pkgs := constifyPackages(packages)
+	pkgs, err := constifyPackages(packages)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	return mainBus, pkgs, nil
 }
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..7739dba 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -1,6 +1,8 @@
 package constContainer
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
@@ -29,10 +31,10 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
-func AddConst(c *cnst.Container, name string, v val.Value) {
+// AddConst adds constant to the container.
+// It returns an error if there is no collection for constants of such kind.
+func AddConst(c *cnst.Container, name string, v val.Value) error {
 	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -40,23 +42,16 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
-		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
-		case val.Bool:
-			addBoolListConst(c, name, v)
-		case val.Int:
-			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
-		default:
-			panic("should never happen")
+		if !addBoolListConst(c, name, v) && !addIntListConst(c, name, v) {
+			return fmt.Errorf("constant '%s' is not a non empty list of only bools or only integers", name)
 		}
 	case val.Str:
 		addStrConst(c, name, v)
 	default:
-		panic("should never happen")
+		return fmt.Errorf("constants of type %s are not supported, constant '%s'", v.Type(), name)
 	}
+
+	return nil
 }
 
 func addBoolConst(c *cnst.Container, name string, v val.Value) {
@@ -75,16 +70,18 @@ func addFloatConst(c *cnst.Container, name string, v val.Value) {
 	c.Floats[name] = f
 }
 
-func addBoolListConst(c *cnst.Container, name string, v val.Value) {
+func addBoolListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyBoolList(v.(val.List))
-	if l == nil {
-		return
+	if len(l) == 0 {
+		return false
 	}
 
 	if c.BoolLists == nil {
 		c.BoolLists = map[string][]bool{name: l}
 	}
 	c.BoolLists[name] = l
+
+	return true
 }
 
 func addIntConst(c *cnst.Container, name string, v val.Value) {
@@ -95,16 +92,18 @@ func addIntConst(c *cnst.Container, name string, v val.Value) {
 	c.Ints[name] = i
 }
 
-func addIntListConst(c *cnst.Container, name string, v val.Value) {
+func addIntListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyIntList(v.(val.List))
-	if l == nil {
-		return
+	if len(l) == 0 {
+		return false
 	}
 
 	if c.IntLists == nil {
 		c.IntLists = map[string][]int64{name: l}
 	}
 	c.IntLists[name] = l
+
+	return true
 }
 
 func addStrConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From 3d08fb8a01ce99fcb47acb2a6c8d01dc46071ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 33/44] fix: report conflicts of properties and instantiations
 with positions instead of panicking

---
 internal/prs/check.go | 5 ++++-
 internal/prs/pkg.go   | 2 +-
 internal/prs/type.go  | 5 +----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
diff --git a/internal/prs/type.go b/internal/prs/type.go
index 625dbef..6c20181 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -151,10 +151,7 @@ func buildType(at ast.Type, src []byte) (*Type, error) {
 			}
 
 			if err := checkPropConflict(t.typ, p, props[0:j]); err != nil {
-				return nil, tok.Error{
-					Msg:  err.Error(),
-					Toks: []tok.Token{at.Body.Props[j].Name},
-				}
+				return nil, err
 			}
 		}
 	}
-- 
2.43.0


From d4abdef90a9b3ffd4911e960c38faa69c8594faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 34/44] fix: find packages next to broken symlinks and short
 file names, and name imports without the fbd- prefix

---
 internal/prs/import.go | 4 +---
 internal/prs/pre.go    | 2 +-
 internal/prs/prs.go    | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..d264a90 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,9 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
-				name = name[4:]
-			}
+			name = strings.TrimPrefix(name, "fbd-")
 		} else {
 			name = tok.Text(ai.Name, src)
 			path = tok.Text(ai.Path, src)
diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From b323073c63c6d01ad94f4dbe4d70f5c54c398cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 35/44] fix: accept != directly after a number

---
 internal/tok/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/utils.go b/internal/tok/utils.go
index ab767cf..92ed426 100644
--- a/internal/tok/utils.go
+++ b/internal/tok/utils.go
@@ -13,7 +13,7 @@ func isHexDigit(b byte) bool {
 // Returns true if character is a valid character after number literal.
 func isValidAfterNumber(b byte) bool {
 	switch b {
-	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&':
+	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&', '!':
 		return true
 	}
 	return false
-- 
2.43.0


From 7dc60f12a3583cfe084e15b03d2a634303db71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:50 +0000
Subject: [PATCH 36/44] fix: recognize properties after the body of a
 functionality

---
 internal/tok/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 22cbd3d..4d3f7ca 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -857,7 +857,7 @@ func isPropertyPlace(toks []Token) bool {
 		return true
 	}
 	switch prevTok.(type) {
-	case Newline, Semicolon, Indent:
+	case Newline, Semicolon, Indent, Dedent:
 		return true
 	}
 	return false
-- 
2.43.0


From e2cc4229d7616212894eb75b36260579036a4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 37/44] fix: refuse width property set on a block through its
 type

---
 internal/ins/block.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7006d6a..ec86559 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,11 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+// applyBlockType applies type to the block.
+// BaseType is the base type of the block, block or bus.
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From 5e1ff4e822315cd1cb01167994ce9cc9f7980f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:46 +0000
Subject: [PATCH 38/44] fix: refuse size of a blackbox which is set twice, and
 name it in the error

---
 internal/ins/blackbox.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..50aed8d 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -11,6 +11,10 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 )
 
+type blackboxDiary struct {
+	sizeSet bool
+}
+
 func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	typeChainStr := fmt.Sprintf("debug: instantiating blackbox, type chain: %s", typeChain[0].Name())
 	for i := 1; i < len(typeChain); i++ {
@@ -25,13 +29,15 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	bb := fn.Blackbox{}
 	bb.Func = f
 
+	diary := blackboxDiary{}
+
 	tci := typeChainIter(typeChain)
 	for {
 		typ, ok := tci()
 		if !ok {
 			break
 		}
-		err := applyBlackboxType(&bb, typ)
+		err := applyBlackboxType(&bb, typ, &diary)
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -48,7 +54,7 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	return &bb, nil
 }
 
-func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
+func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality, diary *blackboxDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "blackbox"); err != nil {
 			return fmt.Errorf(": %v", err)
@@ -64,10 +70,11 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 
 		switch p.Name {
 		case "size":
-			if bb.Size != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+			if diary.sizeSet {
+				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
+			diary.sizeSet = true
 		default:
 			panic(fmt.Sprintf("unhandled '%s' property", p.Name))
 		}
-- 
2.43.0


From e103a24168d98e71019fa908ec9a91282a9276b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:46 +0000
Subject: [PATCH 39/44] fix: refuse irq group made virtual after its irqs are
 instantiated

---
 internal/ins/group.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 770344c..10fc8d2 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -171,6 +171,14 @@ func checkGroup(grp fn.Group) error {
 }
 
 func checkIrqGroup(grp fn.Group) error {
+	// The virtual property might have been set after the irqs were added.
+	if grp.Virtual {
+		return fmt.Errorf(
+			"group '%s' cannot be virtual as it has irq '%s', virtual irq group makes no sense",
+			grp.Name, grp.Irqs[0].Name,
+		)
+	}
+
 	// Make sure all irqs within the group have the same out-trigger.
 	irq0 := grp.Irqs[0]
 	for _, irq := range grp.Irqs[1:] {
-- 
2.43.0


From fc14a1f822f507cebf79d18a5845f54d6350ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 40/44] fix: refuse functionalities instantiated where they are
 not allowed instead of dropping them

---
 internal/ins/ins.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index d94de97..019e9e5 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -6,6 +6,7 @@ import (
 	"log"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -124,8 +125,12 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 
 	typeChain := resolveToBaseType(pf)
 
+	err := checkInnerTypes(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
+
 	var f fn.Functionality
-	var err error
 
 	typ := typeChain[0].Type()
 	switch typ {
@@ -164,6 +169,31 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
+// checkInnerTypes checks whether all functionalities instantiated in the types of the chain
+// are valid for the base type of the chain.
+func checkInnerTypes(typeChain []prs.Functionality) error {
+	baseType := typeChain[0].Type()
+
+	for _, typ := range typeChain {
+		for _, s := range typ.Symbols() {
+			inst, ok := s.(*prs.Inst)
+			if !ok {
+				continue
+			}
+
+			innerType := resolveToBaseType(inst)[0].Type()
+			if !util.IsValidInnerType(innerType, baseType) {
+				return tok.Error{
+					Msg:  fmt.Sprintf(invalidInnerTypeMsg, inst.Name(), innerType, baseType),
+					Toks: []tok.Token{inst.Tok()},
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 	return resolveTypeChain(f, map[prs.Functionality]bool{})
 }
-- 
2.43.0


From 3764e4ba636f113113b15014732f7c14e7d44822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:57 +0000
Subject: [PATCH 41/44] fix: match whole directory names of import paths, so
 import "b" does not mean package "ab"

---
 internal/prs/pkg.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 3cc262a..d49896a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -2,6 +2,7 @@ package prs
 
 import (
 	"fmt"
+	"os"
 	"strings"
 	"sync"
 
@@ -10,13 +11,19 @@ import (
 
 type Packages map[string][]*Package
 
-// GetMatching returns list of pointers to packages which Path contains path suffix.
+// GetMatching returns list of pointers to packages which Path ends with path.
+// The path matches whole directory names, the "fbd-" prefix can be omitted.
 func (packages Packages) GetMatching(path string) []*Package {
 	ret := []*Package{}
 
 	for _, pkgs := range packages {
 		for _, pkg := range pkgs {
-			if strings.HasSuffix(pkg.Path, path) {
+			prefix, ok := strings.CutSuffix(pkg.Path, path)
+			if !ok {
+				continue
+			}
+			prefix = strings.TrimSuffix(prefix, "fbd-")
+			if prefix == "" || strings.HasSuffix(prefix, string(os.PathSeparator)) {
 				ret = append(ret, pkg)
 			}
 		}
-- 
2.43.0


From 93d95751d0157079fdead984a5e3c7a39456fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:12 +0000
Subject: [PATCH 42/44] fix: bind arguments to the parameters of the type which
 is instantiated, not of a type with the same name within the instantiation

---
 internal/ins/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index b85f517..ed2219a 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -54,7 +54,8 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
+	// The type is looked for in the same scope in which the type chain is resolved.
+	typeSymbol, err := symbol.Scope().GetType(symbol.Type())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 445b0a8fadffe23e184456bf6d471db87c2a3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 43/44] fix: report the file of types defined within other
 functionalities instead of crashing in error messages

---
 internal/prs/type.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/type.go b/internal/prs/type.go
index 6c20181..2e2865d 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -66,6 +66,18 @@ func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Sy
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 // BindParams binds type parameters to the arguments.
 func (t *Type) BindParams(args map[string]Expr) {
 	t.boundParams = make(map[string]*Const)
-- 
2.43.0


From cc9b67a8a44226ee22703cec93c980af001ea96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:25 +0000
Subject: [PATCH 44/44] fix: refuse param and return groups made virtual after
 their elements are instantiated

---
 internal/ins/group.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 10fc8d2..e570c90 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -167,6 +167,21 @@ func checkGroup(grp fn.Group) error {
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
+
+	// The virtual property might have been set after the params or returns were added.
+	if grp.Virtual && len(grp.Params) > 0 {
+		return fmt.Errorf(
+			"group '%s' cannot be virtual as it has param '%s', virtual param group makes no sense",
+			grp.Name, grp.Params[0].Name,
+		)
+	}
+	if grp.Virtual && len(grp.Returns) > 0 {
+		return fmt.Errorf(
+			"group '%s' cannot be virtual as it has return '%s', virtual return group makes no sense",
+			grp.Name, grp.Returns[0].Name,
+		)
+	}
+
 	return nil
 }
 
-- 
2.43.0

