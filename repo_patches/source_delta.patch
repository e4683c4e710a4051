From 2e872bd38360b17146226326cfe0ad4f9480b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 01/58] fix: Reset and Clear leave the previous number and
 extension type in the node

---
 dxvalue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..1557811 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -193,6 +193,8 @@ func (v *DxValue)Clear()  {
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
+	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch v.DataType {
 	case VT_Object:
@@ -321,6 +323,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch dt {
 	case VT_Object:
-- 
2.43.0


From 32413094bbd1453c29a59aa74793f4855ee534e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 02/58] fix: Bool interprets the bits of a float as an integer

---
 dxvalue.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 1557811..f6096ce 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -879,10 +879,11 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 }
 
 func (v *DxValue)Bool()bool  {
-	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
-	}
 	switch v.DataType {
+	case VT_Int:
+		return v.Int() > 0
+	case VT_Float,VT_Double,VT_DateTime:
+		return v.Double() > 0
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-- 
2.43.0


From cdcc40f9b46d751b3cf7ba6450d420cc9c3b7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 03/58] fix: Clone and CopyFrom lose binaries and extension
 types and alias boolean nodes

---
 dxvalue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index f6096ce..697ec96 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -554,10 +554,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -576,6 +577,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 		for i := 0;i < len(v.farr);i++{
 			rootv.farr = append(rootv.farr, v.farr[i].clone(c))
 		}
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append([]byte(nil),v.fbinary...)
 	}
 	return rootv
 }
@@ -601,7 +604,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v == fromv{
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -620,6 +627,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append([]byte(nil),fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 5f62345b7ff454ce55c006fa9da8e1eda507d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 04/58] fix: AddFrom duplicates existing keys and mixes escaped
 with unescaped keys

---
 dxvalue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 697ec96..cddd68e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -584,13 +584,21 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v == fromv || v.DataType != fromv.DataType{
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		//键值可能还未转义，统一之后再比较，已经存在的键值不重复增加
+		fromv.fobject.UnEscapestrs()
+		v.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+				continue
+			}
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
-- 
2.43.0


From 5a0b2ab9ec343859370f4c03a7b179ab39accd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 05/58] fix: Equal ignores array length and letter case and
 compares undecoded text

---
 dxvalue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index cddd68e..0621f04 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -489,7 +489,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
 			return v.Double() == value.Double()
@@ -498,7 +498,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	}
 	switch v.DataType {
 	case VT_String,VT_RawString:
-		return v.fstrvalue == value.fstrvalue
+		return v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
 		return bytes.Compare(v.fbinary,value.fbinary) == 0
 	case VT_Object:
@@ -514,7 +514,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From cb1055692acf39d1b68e2af72b326c8f1616f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 06/58] fix: attaching nil leaves an entry that crashes later
 operations

---
 dxvalue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 0621f04..2c63fda 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1178,6 +1178,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if value == nil{
+		value = valueNull
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1199,6 +1202,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if value == nil{
+		value = valueNull
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From f8b2312d72c3f4b7e9245b773124877d2d5ecac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 07/58] fix: Visit and KeyNameByIndex report keys in escaped
 form

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 2c63fda..ebe77db 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1344,6 +1344,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1353,6 +1354,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
-- 
2.43.0


From f1730e36fab312ddc57c51c0355e00597b7fb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 08/58] fix: typed reads of text use the undecoded text and a
 float parser that overflows

---
 dxvalue.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index ebe77db..fca712b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -548,7 +548,7 @@ func (v *DxValue)Int()int64  {
 	case VT_Float:
 		return int64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToIntDef(v.fstrvalue,0)
+		return DxCommonLib.StrToIntDef(v.String(),0)
 	}
 	return 0
 }
@@ -904,7 +904,7 @@ func (v *DxValue)Bool()bool  {
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-		return strings.EqualFold(v.fstrvalue,"true")
+		return strings.EqualFold(v.String(),"true")
 	}
 	return false
 }
@@ -924,6 +924,14 @@ func (v *DxValue)SetBool(value bool)  {
 	}
 }
 
+func strToFloat(s string)float64  {
+	f,err := strconv.ParseFloat(s,64)
+	if err != nil && !math.IsInf(f,0){
+		return 0
+	}
+	return f
+}
+
 func (v *DxValue)Double()float64  {
 	switch v.DataType {
 	case VT_True:
@@ -937,7 +945,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.fstrvalue,0)
+		return strToFloat(v.String())
 	}
 	return 0
 }
@@ -955,7 +963,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.fstrvalue,0))
+		return float32(strToFloat(v.String()))
 	}
 	return 0
 }
@@ -978,11 +986,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	case VT_Int,VT_Double,VT_Float,VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
 		}
 	}
@@ -994,11 +1002,11 @@ func (v *DxValue)GoTime()time.Time  {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return t
 		}
 	}
-- 
2.43.0


From 825ee3c28140a150c95e3f91b31e7628491c6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 09/58] fix: MergeWith stops after the first nested common key,
 reports wrong paths and does not unite nested arrays

---
 dxvalue.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index fca712b..8793cf6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -414,43 +414,50 @@ const(
 
 type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
-func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
-	mergeOp := MO_Normal
+func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)  {
+	v.fobject.UnEscapestrs()
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
-		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
+		key := value.fobject.strkvs[i].K
+		newv := value.fobject.strkvs[i].V
+		idx := v.fobject.indexByName(key)
 		if idx != -1{
+			mergeOp := MO_Normal
+			curpath := parentpath
 			if mergefunc!=nil{
-				if len(parentpath) != 0{
-					parentpath = append(parentpath,'/')
+				if len(curpath) != 0{
+					curpath = append(curpath,'/')
 				}
-				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				curpath = append(curpath,key...)
+				mergeOp = mergefunc(string(curpath),v.fobject.strkvs[idx].V,newv)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
-				}else{
+				oldv := v.fobject.strkvs[idx].V
+				switch {
+				case oldv.DataType == VT_Object && newv.DataType == VT_Object:
+					mergeObject(curpath,oldv,newv,mergefunc)
+				case oldv.DataType == VT_Array && newv.DataType == VT_Array:
+					oldv.MergeWith(newv,mergefunc)
+				default:
 					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					arr := NewArray(false)
+					arr.SetIndexValue(0,oldv)
+					arr.SetIndexValue(1,newv.clone(nil))
+					v.fobject.strkvs[idx].V = arr
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
-				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
+				v.fobject.strkvs[idx].V = newv.clone(nil)
 			}
 		}else{
 			//没有，直接增加
-			v.SetKeyValue(value.fobject.strkvs[i].K,value.fobject.strkvs[i].V.clone(nil))
+			v.SetKeyValue(key,newv.clone(nil))
 		}
 	}
-	return parentpath
 }
 
 func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
-	if value == nil || v == nil || value.DataType != v.DataType || v.DataType > VT_Array{
+	if value == nil || v == nil || v == value || value.DataType != v.DataType || v.DataType > VT_Array{
 		return
 	}
 	if v.DataType == VT_Object{
-- 
2.43.0


From f327ff6a8b37d7987a23dc89eeed04b5879becb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 10/58] fix: SetIndex and InsertValue hand out shared read-only
 constants instead of writable nodes

---
 dxvalue.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8793cf6..0a2b9d2 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1263,16 +1263,11 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 	l := len(v.farr)
 	if idx >= 0 && idx < l{
 		result := v.farr[idx]
-		if result != nil && result.DataType != tp{
-			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
-				result = c.getValue(tp)
-				v.farr[idx] = result
-			}else if result.DataType != tp {
-				result.Reset(tp)
-			}
-		}else if result == nil{
+		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.farr[idx] = result
+		}else if result.DataType != tp {
+			result.Reset(tp)
 		}
 		return result
 	}else{
@@ -1286,7 +1281,8 @@ func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-	result := NewValue(tp)
+	result := &DxValue{}
+	result.Reset(tp)
 	l := len(v.farr)
 	if idx < 0{
 		idx = 0
-- 
2.43.0


From c352f37d5260317ccb1526814ddba496d64068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 11/58] fix: setters, loads, Clear and FreeValue write into the
 shared read-only constants

---
 cache.go   |  2 +-
 dxvalue.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index bc456b3..0b8a29d 100644
--- a/cache.go
+++ b/cache.go
@@ -62,7 +62,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){
 		return
 	}
 	v.Clear()
diff --git a/dxvalue.go b/dxvalue.go
index 0a2b9d2..14ca493 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("read only value can not be changed")
 )
 
 
@@ -190,6 +192,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -259,6 +264,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -268,6 +276,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -278,6 +289,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -309,6 +323,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -619,6 +636,9 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v == fromv{
 		return
 	}
@@ -725,6 +745,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -839,6 +862,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -1031,6 +1057,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1038,6 +1067,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1160,6 +1192,12 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		//常量不能变更，返回一个独立的值
+		result := &DxValue{}
+		result.Reset(tp)
+		return result
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1193,6 +1231,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if value == nil{
 		value = valueNull
 	}
@@ -1217,6 +1258,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if value == nil{
 		value = valueNull
 	}
@@ -1257,6 +1301,12 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		//常量不能变更，返回一个独立的值
+		result := &DxValue{}
+		result.Reset(tp)
+		return result
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1278,6 +1328,12 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		//常量不能变更，返回一个独立的值
+		result := &DxValue{}
+		result.Reset(tp)
+		return result
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 4232f3b4a1439fb827e831015c6ded8dd361596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 12/58] fix: SetBinary and SetExtType overwrite a buffer shared
 with the caller

---
 bin_value.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..3f836d7 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -29,11 +29,9 @@ func (v *DxValue)BinLen()int  {
 
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
-		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
-		}else{
-			v.fbinary = append(v.fbinary,t)
-		}
+		//数据有可能是共享的，不能直接在原数据上修改
+		b := append([]byte{t},v.Binary()...)
+		v.fbinary = b
 	}
 }
 
@@ -54,19 +52,22 @@ func (v *DxValue)Binary()[]byte  {
 func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
+		if v.ExtType == uint8(BSON_ObjectID) && len(b) != 12 || v.ExtType == uint8(BSON_Decimal128) && len(b) != 16{
+			v.ExtType = 0
+		}
+		//原有的数据有可能是共享的，不能重用
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-				v.fbinary = append(v.fbinary[:0],b...)
+				v.fbinary = append([]byte(nil),b...)
 			}else{
 				v.fbinary = b
 			}
-- 
2.43.0


From d35f61b07ead1d2ed7e5fd88a119c2190ecb5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 13/58] fix: SaveBinaryToFile opens the file without write
 access

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 3f836d7..22d8746 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -77,7 +77,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From 96248e4b65cea3f95f1d630eb869cac458612855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 14/58] fix: times in another zone are stored on the wrong day
 and SetValue loses the date-time type

---
 dxvalue.go       |  2 +-
 reflect_parse.go | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 14ca493..f0c8f89 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1063,7 +1063,7 @@ func (v *DxValue)SetTime(value time.Time)  {
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value))
+	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value.In(time.Local)))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..d9f47b1 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -2,7 +2,6 @@ package dxsvalue
 
 import (
 	"encoding/json"
-	"github.com/suiyunonghen/DxCommonLib"
 	"reflect"
 	"strings"
 	"time"
@@ -242,9 +241,11 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.Reset(VT_DateTime)
+		v.SetTime(realv)
 	case *time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.Reset(VT_DateTime)
+		v.SetTime(*realv)
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -515,9 +516,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			v.SetKeyValue(Name,valueFalse)
 		}
 	case time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetTime(realv)
 	case *time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetTime(*realv)
 	case float32:
 		v.SetKeyCached(Name,VT_Float,cache).SetFloat(realv)
 	case *float32:
@@ -751,9 +752,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			v.SetIndexValue(idx,valueFalse)
 		}
 	case time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetTime(realv)
 	case *time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetTime(*realv)
 	case float32:
 		v.SetIndexCached(idx,VT_Float,cache).SetFloat(realv)
 	case *float32:
-- 
2.43.0


From fd969b2578231e3cbd8efb5952eaeb2b9db37722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 15/58] fix: JSON numbers at the end of input, with exponents,
 beyond int64 or with more than float32 precision are misread

---
 jsonparse.go | 122 +++++++++++++++++++++++++--------------------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..c2d4875 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -547,77 +547,77 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 }
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
-	for i := 0; i < len(b); i++ {
+	ns,tp,tail,err := splitJsonNum(b)
+	if err != nil{
+		return b,err
+	}
+	if tp != VT_Double{
+		num.Reset(tp)
+		return tail,nil
+	}
+	if vint,err := strconv.ParseInt(ns,10,64);err == nil{
+		num.Reset(VT_Int)
+		num.SetInt(vint)
+		return tail,nil
+	}
+	vfloat,err := strconv.ParseFloat(ns,64)
+	if err != nil{
+		return b,errors.New("无效的Json格式")
+	}
+	num.Reset(VT_Double)
+	num.SetDouble(vfloat)
+	return tail, nil
+}
+
+//取得数字内容，tp返回VT_Double表示是数字，否则为VT_INF或者VT_NAN
+func splitJsonNum(b []byte)(ns string,tp ValueType,tail []byte,err error)  {
+	i := 0
+	for i < len(b) {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+			i++
 			continue
 		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					num.Reset(VT_INF)
-					return b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					num.Reset(VT_NAN)
-					return b[i+3:], nil
-				}
+		break
+	}
+	if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
+		if len(b[i:]) >= 3 {
+			xs := b[i : i+3]
+			if bytes.EqualFold(xs, infbyte) {
+				return "",VT_INF, b[i+3:], nil
+			}
+			if bytes.EqualFold(xs, nanbyte){
+				return "",VT_NAN, b[i+3:], nil
 			}
-			return b, errors.New("无效的Json格式")
-		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
 		}
-		return b, nil
+		return "",VT_NULL, b, errors.New("无效的Json格式")
 	}
-	return nil, nil
+	return string(b[:i]),VT_Double,b[i:],nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
-		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
-		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					return valueINF, b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					return valueNAN, b[i+3:], nil
-				}
-			}
-			return nil, b, errors.New("无效的Json格式")
-		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
-		}
-		return num, b, nil
+	ns,tp,tail,err := splitJsonNum(b)
+	if err != nil{
+		return nil,b,err
+	}
+	if tp == VT_INF{
+		return valueINF,tail,nil
+	}
+	if tp == VT_NAN{
+		return valueNAN,tail,nil
+	}
+	if vint,err := strconv.ParseInt(ns,10,64);err == nil{
+		num = c.getValue(VT_Int)
+		num.SetInt(vint)
+		return num,tail,nil
+	}
+	vfloat,err := strconv.ParseFloat(ns,64)
+	if err != nil{
+		return nil,b,errors.New("无效的Json格式")
 	}
-	return nil, nil, nil
+	num = c.getValue(VT_Double)
+	num.SetDouble(vfloat)
+	return num, tail, nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From b43eec56b5c7708426f362cf994239c5829325b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 16/58] fix: any JSON word starting with n is accepted as NaN

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index c2d4875..67525d6 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -477,7 +477,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -534,7 +534,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From 3c2b181597bf0a42c02551722f66e70607aa6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 17/58] fix: a JSON key with an escaped quote ends at that
 quote

---
 jsonparse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 67525d6..e7c546d 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,11 +235,13 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return key,tail,err
 		}
 	}
-	return "", nil, &ErrorParseJson{
-		Type:         JET_NoKeyStart,
-		InvalidIndex: l,
+	return "", b, &ErrorParseJson{
+		Type:         JET_NoKeyEnd,
+		InvalidIndex: 0,
+		parseB:       b,
 	}
 }
 
-- 
2.43.0


From 846effbf4af25d4032051992932bca7d48614869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 18/58] fix: rendering a JSON parse error can crash

---
 jsonparse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index e7c546d..5043675 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,10 +54,14 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
-	if l > err.InvalidIndex + 32{
-		l = err.InvalidIndex + 32
+	start := err.InvalidIndex
+	if start > l{
+		start = l
 	}
-	b = b[err.InvalidIndex:l]
+	if l > start + 32{
+		l = start + 32
+	}
+	b = b[start:l]
 	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
 }
 
-- 
2.43.0


From a398b0b2e775a9c068f5338c54e4292666280c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 19/58] fix: loading a JSON object or array into a value of
 another type leaves the type unchanged

---
 jsonparse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 5043675..9fbd247 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -161,6 +161,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 			parseB:oldb,
 		}
 	}
+	v.Reset(VT_Object)
 	if b[0] == '}'{
 		tail = b[1:]
 		return
@@ -360,6 +361,7 @@ func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err
 		}
 		return oldb, err
 	}
+	result.Reset(VT_Array)
 	if b[0] == ']' {
 		return b[1:], nil
 	}
-- 
2.43.0


From d45436553df2a950df59ce443eef425d6ed35708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 20/58] fix: a failed load leaves partially decoded content in
 the target

---
 dxvalue.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index f0c8f89..d3ff5f4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -272,6 +272,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,err := parseMsgPack2Value(b,v,sharebinary)
+	if err != nil{
+		v.loadFailed()
+	}
 	return err
 }
 
@@ -285,6 +288,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,err := parseJson2Value(b,v,sharebinary)
+	if err != nil{
+		v.loadFailed()
+	}
 	return err
 }
 
@@ -319,6 +325,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
+	if err != nil{
+		v.loadFailed()
+	}
 	return err
 }
 
@@ -331,9 +340,18 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	if err != nil{
+		v.loadFailed()
+	}
 	return  err
 }
 
+//加载失败的时候，不保留只解析了一部分的内容
+func (v *DxValue)loadFailed()  {
+	v.Clear()
+	v.Reset(VT_NULL)
+}
+
 func (v *DxValue)Reset(dt ValueType)  {
 	if v.ReadOnly(){
 		return
-- 
2.43.0


From ea46dd9a1f115882ee7486e1ee7314f705ff8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 21/58] fix: LoadFromJson accepts trailing data after the
 document

---
 dxvalue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index d3ff5f4..a472663 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -287,7 +287,15 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err == nil{
+		if b,_ = skipWB(tail);len(b) > 0{
+			err = &ErrorParseJson{
+				Type:         JET_Invalidate,
+				parseB:       b,
+			}
+		}
+	}
 	if err != nil{
 		v.loadFailed()
 	}
-- 
2.43.0


From 3591bb4d2e8904a569366e87fbb40e676064fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 22/58] fix: JSON output contains escapes and control
 characters that are not valid JSON

---
 jsonparse.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 9fbd247..bb38a8d 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -7,6 +7,8 @@ import (
 	"github.com/suiyunonghen/DxCommonLib"
 	"os"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 type JsonErrType	uint8
@@ -651,6 +653,48 @@ const(
 )
 
 
+func isHexChar(b byte)bool  {
+	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
+}
+
+func appendUnicodeEscape(r rune,dst []byte)[]byte  {
+	const hexchars = "0123456789ABCDEF"
+	return append(dst,'\\','u',hexchars[r>>12&0xF],hexchars[r>>8&0xF],hexchars[r>>4&0xF],hexchars[r&0xF])
+}
+
+//按照Json标准转义，%后面跟两个16进制字符的会被解码成字节，所以也需要转义
+func escapeJsonStr(str string,escapeUnicode bool,dst []byte)[]byte  {
+	for i,r := range str{
+		switch {
+		case r == '"' || r == '\\':
+			dst = append(dst,'\\',byte(r))
+		case r == '\b':
+			dst = append(dst,'\\','b')
+		case r == '\f':
+			dst = append(dst,'\\','f')
+		case r == '\n':
+			dst = append(dst,'\\','n')
+		case r == '\r':
+			dst = append(dst,'\\','r')
+		case r == '\t':
+			dst = append(dst,'\\','t')
+		case r < ' ' || r == '%' && i + 2 < len(str) && isHexChar(str[i+1]) && isHexChar(str[i+2]):
+			dst = appendUnicodeEscape(r,dst)
+		case r < utf8.RuneSelf:
+			dst = append(dst,byte(r))
+		case !escapeUnicode:
+			dst = append(dst,string(r)...)
+		case r < 0x10000:
+			dst = appendUnicodeEscape(r,dst)
+		default:
+			r1,r2 := utf16.EncodeRune(r)
+			dst = appendUnicodeEscape(r1,dst)
+			dst = appendUnicodeEscape(r2,dst)
+		}
+	}
+	return dst
+}
+
 func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	if dst == nil{
 		dst = make([]byte,0,256)
@@ -673,7 +717,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			default:
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -689,7 +733,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
 		}
 
 		dst = append(dst,'"')
@@ -761,7 +805,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 			if escapeStyle != JSE_NoEscape{
 				if v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -797,7 +841,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
 		}
 		dst = append(dst,'"')
 	case VT_Array:
-- 
2.43.0


From 0bbe8a434af46a161e4a37e5ff3215ff067ff6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 23/58] fix: surrogate pairs in JSON strings decode to
 replacement characters

---
 dxvalue.go   |  4 ++--
 jsonparse.go | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index a472663..2320e1b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -140,7 +140,7 @@ func (obj *VObject)UnEscapestrs()  {
 	}
 	for i := range obj.strkvs {
 		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		kv.K = unescapeJsonStr(kv.K)
 	}
 	obj.keysUnescaped = true
 }
@@ -825,7 +825,7 @@ func (v *DxValue)String()string  {
 	case VT_ExBinary:
 	case VT_RawString:
 		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
+		v.fstrvalue = unescapeJsonStr(v.fstrvalue)
 		return v.fstrvalue
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
diff --git a/jsonparse.go b/jsonparse.go
index bb38a8d..e6bf012 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -653,6 +653,44 @@ const(
 )
 
 
+//解码\uXXXX，返回-1表示不是
+func parseUnicodeEscape(b []byte)rune  {
+	if len(b) < 6 || b[0] != '\\' || b[1] != 'u'{
+		return -1
+	}
+	r,err := strconv.ParseUint(string(b[2:6]),16,32)
+	if err != nil{
+		return -1
+	}
+	return rune(r)
+}
+
+//解转义Json字符串，先将UTF16代理对合并成一个字符
+func unescapeJsonStr(str string)string  {
+	b := DxCommonLib.FastString2Byte(str)
+	var dst []byte
+	start := 0
+	for i := 0;i + 1 < len(b);i++{
+		if b[i] != '\\'{
+			continue
+		}
+		if r1 := parseUnicodeEscape(b[i:]);utf16.IsSurrogate(r1){
+			if r := utf16.DecodeRune(r1,parseUnicodeEscape(b[i+6:]));r != utf8.RuneError{
+				dst = append(dst,b[start:i]...)
+				dst = append(dst,string(r)...)
+				start = i + 12
+				i = start - 1
+				continue
+			}
+		}
+		i++
+	}
+	if start > 0{
+		b = append(dst,b[start:]...)
+	}
+	return DxCommonLib.ParserEscapeStr(b)
+}
+
 func isHexChar(b byte)bool  {
 	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
 }
-- 
2.43.0


From b6edc97128b9b993379551b972f20978b7b3c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 24/58] fix: binaries and non-finite numbers make JSON output
 invalid or crash

---
 dxvalue.go   | 20 ++++++++-----------
 jsonparse.go | 55 ++++++++++++++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 2320e1b..0348463 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -804,21 +804,17 @@ func (v *DxValue)String()string  {
 	case VT_Binary:
 		var dst []byte
 		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-
-		case uint8(BSON_Decimal128):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
+		case uint8(BSON_ObjectID),uint8(BSON_Decimal128):
+			dst = appendBinaryJson(v,make([]byte,0,64))
 		default:
+			//只显示前面的部分
+			b := v.fbinary
+			if len(b) > 12{
+				b = b[:12]
+			}
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(b)...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
diff --git a/jsonparse.go b/jsonparse.go
index e6bf012..4725c7b 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"math"
 	"os"
 	"strconv"
 	"unicode/utf16"
@@ -691,6 +692,33 @@ func unescapeJsonStr(str string)string  {
 	return DxCommonLib.ParserEscapeStr(b)
 }
 
+//Json没有二进制类型，以16进制输出
+func appendBinaryJson(v *DxValue,dst []byte)[]byte  {
+	switch {
+	case v.DataType == VT_Binary && v.ExtType == uint8(BSON_ObjectID):
+		dst = append(dst,`{"$oid":"`...)
+		dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
+		dst = append(dst,'"','}')
+	case v.DataType == VT_Binary && v.ExtType == uint8(BSON_Decimal128):
+		dst = append(dst,`{"Decimal128":"`...)
+		dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
+		dst = append(dst,'"','}')
+	default:
+		dst = append(dst,`"Bin(`...)
+		dst = append(dst,DxCommonLib.Bin2Hex(v.Binary())...)
+		dst = append(dst,')','"')
+	}
+	return dst
+}
+
+//Json没有NaN和Infinity
+func appendFloatJson(f float64,dst []byte)[]byte  {
+	if math.IsNaN(f) || math.IsInf(f,0){
+		return append(dst,'n','u','l','l')
+	}
+	return strconv.AppendFloat(dst,f,'f',-1,64)
+}
+
 func isHexChar(b byte)bool  {
 	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
 }
@@ -789,7 +817,9 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		}
 		dst = append(dst, ']')
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		dst = appendFloatJson(v.Double(),dst)
+	case VT_Binary,VT_ExBinary:
+		dst = appendBinaryJson(v,dst)
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -812,7 +842,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_NULL,VT_NAN,VT_INF:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
@@ -859,21 +889,8 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst,'}')
-	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-		case uint8(BSON_Decimal128):
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
+	case VT_Binary,VT_ExBinary:
+		dst = appendBinaryJson(v,dst)
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
@@ -899,7 +916,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		formatSpace(level)
 		dst = append(dst, ']')
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		dst = appendFloatJson(v.Double(),dst)
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -922,7 +939,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_NULL,VT_NAN,VT_INF:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
-- 
2.43.0


From 63f119e04be6ddac6eee55d335907c5c06ffa208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 25/58] fix: MsgPack extensions of 1, 2, 4, 8 or 16 bytes are
 written with two headers

---
 msgpack_value.go | 10 +++++-----
 msgpackparse.go  |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..6970a1c 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -169,15 +169,15 @@ func getExtcode(exbinLen int)MsgPackCode  {
 func writeExtCode(exlen int,dst []byte)[]byte  {
 	switch exlen {
 	case 1:
-		dst = append(dst,byte(CodeFixExt1))
+		return append(dst,byte(CodeFixExt1))
 	case 2:
-		dst = append(dst,byte(CodeFixExt2))
+		return append(dst,byte(CodeFixExt2))
 	case 4:
-		dst = append(dst,byte(CodeFixExt4))
+		return append(dst,byte(CodeFixExt4))
 	case 8:
-		dst = append(dst,byte(CodeFixExt8))
+		return append(dst,byte(CodeFixExt8))
 	case 16:
-		dst = append(dst,byte(CodeFixExt16))
+		return append(dst,byte(CodeFixExt16))
 	}
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..2b7eb50 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -570,6 +570,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		}
 		dst = writeExtCode(blen,dst)
 		//直接写入内容
+		if len(v.fbinary) == 0{
+			dst = append(dst,0) //没有设定扩展类型
+		}
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
 		blen := len(v.fbinary)
-- 
2.43.0


From 1f4d93a3af4e4afb2380f05324edadd0778e8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 26/58] fix: MsgPack output contains JSON escape sequences of
 decoded documents

---
 msgpackparse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 2b7eb50..6243ae9 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -518,6 +518,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -587,9 +588,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
-		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		str := v.String()
+		dst = writeStrCode(len(str),dst)
+		dst = append(dst,DxCommonLib.FastString2Byte(str)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From 4030b96bbaa10a2931a4c5f74b499ba70c6d12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 27/58] fix: NaN and infinity are left out of MsgPack output

---
 msgpackparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 6243ae9..8ebbe94 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -597,6 +597,14 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN,VT_INF:
+		f := math.Inf(1)
+		if v.DataType == VT_NAN{
+			f = math.NaN()
+		}
+		l := len(dst)
+		dst = append(dst,byte(CodeDouble),0,0,0,0,0,0,0,0)
+		binary.BigEndian.PutUint64(dst[l+1:],math.Float64bits(f))
 	}
 	return dst
 }
\ No newline at end of file
-- 
2.43.0


From 00ed1ff152d44f54c76d2193fc9eb65d13fa7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 28/58] fix: truncated or malformed MsgPack maps, extensions
 and codes crash or are accepted

---
 msgpackparse.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 8ebbe94..81a7398 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -34,14 +34,14 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if maplen == 0{
 		return b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
-		return b,ErrMapKey
-	}
 	var rawbyte []byte
 	var key string
 	var value *DxValue
 	for i := 0;i<maplen;i++{
 		code,b,err = readCode(b)
+		if err == nil && !code.IsStr(){
+			err = ErrMapKey
+		}
 		if err != nil{
 			return b,err
 		}
@@ -72,9 +72,6 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
-		return nil,b,ErrMapKey
-	}
 	var rawbyte []byte
 	var key string
 	var value *DxValue
@@ -84,6 +81,9 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	}
 	for i := 0;i<maplen;i++{
 		code,b,err = readCode(b)
+		if err == nil && !code.IsStr(){
+			err = ErrMapKey
+		}
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -290,11 +290,11 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -323,6 +323,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		return nil,b,ErrInvalidateCode
 	}
 	return
 }
@@ -449,11 +451,11 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			switch code {
 			case CodeFixExt4:
@@ -480,6 +482,8 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		return b,ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From 74fc63f53cd08e14241cf02dd6fa1d950dddf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 29/58] fix: loading MsgPack into an existing value does not
 set the value's type

---
 msgpackparse.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 81a7398..61e132f 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,6 +31,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -340,6 +341,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
@@ -350,6 +352,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 	case code.IsMap():
 		return parseMsgPackObject2v(code,b,v,sharebinary)
 	case code.IsFixedNum():
+		v.Reset(VT_Int)
 		v.SetInt(int64(int8(code)))
 		return b,nil
 	case code == CodeUint8:
@@ -357,6 +360,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(ub))
 		return b,nil
 	case code == CodeInt8:
@@ -364,6 +368,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(int8(ub)))
 		return b,nil
 	case code == CodeUint16:
@@ -371,6 +376,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(u16))
 		return b,nil
 	case code == CodeInt16:
@@ -378,6 +384,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(int16(u16)))
 		return b,nil
 	case code == CodeUint32:
@@ -385,6 +392,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(u32))
 		return b,nil
 	case code == CodeInt32:
@@ -392,6 +400,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(int32(u32)))
 		return b,nil
 	case code == CodeInt64 || code == CodeUint64:
@@ -399,6 +408,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Int)
 		v.SetInt(int64(u64))
 		return b,nil
 	case code == CodeFloat:
@@ -406,6 +416,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Float)
 		v.SetFloat(*(*float32)(unsafe.Pointer(&u32)))
 		return b,nil
 	case code == CodeDouble:
@@ -413,6 +424,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -436,6 +448,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -457,6 +470,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -476,6 +490,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From 149678c92a5e25a166568b5be618c95c92f36bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 30/58] fix: negative BSON int32 values are read as large
 positive numbers

---
 bson_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..b45e528 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -232,7 +232,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From ef3870f46918e5a6d7f2086429cd60dee8d56a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 31/58] fix: float32 values are written to BSON as raw bits

---
 bson_parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index b45e528..778cbed 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -389,8 +389,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
-- 
2.43.0


From c78fed175897281dd4d440ae30b920e942503105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 32/58] fix: NaN and infinity corrupt BSON output

---
 bson_parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index 778cbed..dbb8625 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -424,6 +424,10 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,1)
 	case VT_False:
 		dst = append(dst,0)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	}
 	return dst
 }
@@ -451,7 +455,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-- 
2.43.0


From c0b212abfd7d75d4f50c45abc6c2693e30ed9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 33/58] fix: empty BSON documents and binaries are misread and
 malformed BSON crashes

---
 bson_parse.go | 117 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 42 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index dbb8625..a082362 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -22,20 +22,18 @@ BSON文档（对象）由一个有序的元素列表构成。每个元素由一
 所以BSON文档必然是Object
  */
 func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
-	if len(b) <= 4{
-		return 0,0,ErrBadBSONDocLen
-	}
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	docLen,err = parseBsonDocLen(b)
+	if err != nil{
+		return docLen,0,err
 	}
+	//去掉结束符
+	b = b[:docLen-1]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < len(b){
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -80,26 +78,58 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		}
 
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
 
+//文档长度，包含了4字节的长度以及最后的结束符
+func parseBsonDocLen(b []byte)(int,error)  {
+	if len(b) <= 4{
+		return 0,ErrBadBSONDocLen
+	}
+	docLen := int(int32(binary.LittleEndian.Uint32(b[:4])))
+	if docLen < 5 || docLen > len(b){
+		return docLen,ErrBadBSONDocLen
+	}
+	if b[docLen-1] != 0{
+		return docLen,ErrInvalidBSON
+	}
+	return docLen,nil
+}
+
+//类型至少需要占用的字节数
+func bsonMinLen(btype BsonType)int  {
+	switch btype {
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		return 8
+	case BSON_Int32:
+		return 4
+	case BSON_Boolean:
+		return 1
+	case BSON_ObjectID:
+		return 12
+	case BSON_Decimal128:
+		return 16
+	case BSON_String,BSON_Binary:
+		return 5
+	}
+	return 0
+}
+
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	docLen,err = parseBsonDocLen(b)
+	if err != nil{
+		return docLen,0,err
 	}
+	//去掉结束符
+	b = b[:docLen-1]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < len(b){
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,14 +178,14 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
 
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	if len(b) < bsonMinLen(btype){
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -163,8 +193,11 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_String:
 		//UTF8
-		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
+		valueLen = int(int32(binary.LittleEndian.Uint32(b[:4])))
 		parseIndex += 4
+		if valueLen < 1 || valueLen > len(b) - parseIndex || b[parseIndex+valueLen-1] != 0{
+			return valueLen,0,ErrInvalidBSON
+		}
 		start := parseIndex
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
@@ -174,35 +207,35 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			value.SetString(string(b[start:parseIndex - 1]))
 		}
 	case BSON_Binary:
-		value.DataType = VT_ExBinary
-		value.ExtType = uint8(btype)
 		//先读取长度
-		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-		parseIndex = 4
+		valueLen = int(int32(binary.LittleEndian.Uint32(b[:4])))
+		if valueLen < 0 || valueLen > len(b) - 5{
+			return valueLen,0,ErrInvalidBSON
+		}
+		parseIndex = 5 + valueLen
 		//子类型
-		b = b[parseIndex:]
-		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
-				return valueLen,parseIndex,ErrInvalidBSON
+		subType := b[4]
+		switch subType {
+		case uint8(BinaryGeneric):
+			value.Reset(VT_Binary)
+			b = b[5:parseIndex]
+		case uint8(BinaryBinaryOld):
+			//里面还有一个长度
+			if valueLen < 4 || int(int32(binary.LittleEndian.Uint32(b[5:9]))) != valueLen - 4{
+				return valueLen,0,ErrInvalidBSON
 			}
-			value.DataType = VT_Binary
-			value.ExtType = 0
-		}else{
+			value.Reset(VT_Binary)
+			b = b[9:parseIndex]
+		default:
 			//VT_ExBinary要将subType带上
-			valueLen ++
+			value.Reset(VT_ExBinary)
+			value.ExtType = uint8(btype)
+			b = b[4:parseIndex]
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append([]byte(nil),b...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
-- 
2.43.0


From 05d710c56f136375e8ffc35e71f80ba9f92802d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 34/58] fix: BSON elements of unsupported types are misread as
 following elements

---
 bson_parse.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index a082362..e3064ae 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -237,7 +237,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		}else {
 			value.fbinary = append([]byte(nil),b...)
 		}
-	case BSON_Undefined:
 	case BSON_ObjectID:
 		//12字节
 		value.DataType = VT_Binary
@@ -257,13 +256,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
 		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
 		return 8,8,nil
-	case BSON_Null:
-		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
+	case BSON_Null,BSON_Undefined,BSON_MinKey,BSON_MaxKey:
+		//没有内容，啥都不干
 	case BSON_Int32:
 		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
@@ -281,8 +275,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		value.ExtType = uint8(btype)
 		value.SetBinary(b[:16],!shareBinary)
 		return 16,16,nil
-	case BSON_MinKey:
-	case BSON_MaxKey:
+	default:
+		//不支持的类型，不知道长度，无法继续解析
+		return 0,0,ErrInvalidBSON
 	}
 	return
 }
-- 
2.43.0


From b2e6bb0edf1de7bf99cd169404cd9012bcc93e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 35/58] fix: loading BSON into an array mixes the document's
 keys with array indexes

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 0348463..7ebd57a 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -347,6 +347,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
 	if err != nil{
 		v.loadFailed()
-- 
2.43.0


From 8b8241a7aca6de7d441ec6d791569a10a8aa2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 36/58] fix: YAML parser loops, crashes or drops content on
 short and blank lines

---
 yamlparse.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..e8846f4 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -182,7 +182,7 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 
 	//在中间出现了#注释，需要前面有一个空格，有空格的就认为后面是注释
 	lastIndex := bytes.Index(dataLine,commetTag)
-	if lastIndex > 1{
+	if lastIndex > 0{
 		dataLine = dataLine[:lastIndex]
 		if len(dataLine) == 0{
 			//注释不处理
@@ -496,16 +496,12 @@ func (parser *yamlParser)parse()error  {
 				}
 			}
 		}
-		if curLineEnd - istart < 2{
-			istart = curLineEnd + 1
-			if istart == datalen{
-				break
+		line := bytes.TrimRight(parser.parseData[istart: curLineEnd],"\r")
+		if len(bytes.TrimFunc(line,spaceTrim)) > 0{ //空行不处理
+			err := parser.parseLine(line,spaceCount)
+			if err != nil{
+				return err
 			}
-			continue
-		}
-		err := parser.parseLine(parser.parseData[istart: curLineEnd],spaceCount)
-		if err != nil{
-			return err
 		}
 
 		istart = curLineEnd + 1
-- 
2.43.0


From 30a931c8e1222378ad94ade0991c16c7cbe43973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 37/58] fix: a recycled YAML parser remembers state of the
 previous document

---
 yamlparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yamlparse.go b/yamlparse.go
index e8846f4..575470e 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -52,6 +52,7 @@ func freeyamlParser(parser *yamlParser)  {
 
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
+	parser.ifFirstObjEle = false
 	parser.root = nil
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
-- 
2.43.0


From b7d69c8e788b345b9973ba6d24f0e4408de19891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 38/58] fix: YAML anchors on mappings and sequences are only
 known on the first line of a block

---
 yamlparse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 575470e..ae56fe3 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -451,7 +451,9 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 				parser.parseStringValue(target,value,false) //继续解析
 			}
 		}else {
-			target.SetString("")
+			//后面的内容是对象或者数组
+			target.Reset(VT_Object)
+			parser.setCachedUseage(string(vstr[1:]),target)
 		}
 	}else if vstr[0] == '*' {
 		spaceIndex := bytes.IndexByte(vstr,' ')
-- 
2.43.0


From 7bf5c0dcd3d287a92e811f8041f46e536fe16a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 39/58] fix: YAML sequence items whose first key holds a
 sequence or a merge are misread

---
 yamlparse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index ae56fe3..6aba729 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -158,8 +158,14 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 				parser.fParsingValues[len(parser.fParsingValues) - 1].isMapArrayNode = true
 				parser.ifFirstObjEle = true
 				//parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount = parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount + 2
-				if len(v) == 0{
-					currentValue = currentValue.SetKeyCached(string(k),VT_NULL,parser.fparentCache)
+				merged,err := parser.mergeObject(currentValue,dataLine,k,v)
+				if err != nil{
+					return err
+				}
+				if merged{
+				}else if len(v) == 0{
+					//后面的内容是对象或者数组
+					currentValue = currentValue.SetKeyCached(string(k),VT_Object,parser.fparentCache)
 				}else{
 					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,v,true)
-- 
2.43.0


From bd9fa0b9832011a4e4ac4e0f4a60b87fe296feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 40/58] fix: YAML parser drops the whole document on a smaller
 indent and returns nil for an empty one

---
 yamlparse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 6aba729..3bfd5d5 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -88,8 +88,8 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 func (parser *yamlParser)popLast(popCount int)  {
 	l := len(parser.fParsingValues)
 	if l > 0{
-		if popCount > l{
-			popCount = l
+		if popCount > l - 1{
+			popCount = l - 1 //根不能弹出
 		}
 		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
 			parser.fParsingValues[i].v = nil
@@ -532,6 +532,9 @@ func NewValueFromYaml(b []byte,usecache bool)(*DxValue,error)  {
 	}
 	result := parser.root
 	freeyamlParser(parser)
+	if result == nil{ //没有内容
+		result = valueNull
+	}
 	return result,nil
 }
 
-- 
2.43.0


From 2c8fb82e865f9403ff386581860620e9537a2512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 41/58] fix: YAML numbers with exponents or many digits are
 inexact

---
 yamlparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 3bfd5d5..8cb8813 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -431,8 +431,8 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		target.SetBool(false)
 		return
 	}
-	if vfloat,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
-		target.SetDouble(vfloat)
+	if _,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
+		target.SetDouble(strToFloat(string(vstr)))
 		return
 	}
 	//判定一下是否有使用引用参数的
-- 
2.43.0


From 1449216d562ef9a4d1b4f9d722ad524a0897a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 42/58] fix: LoadFromYaml drops the indentation of the first
 line

---
 dxvalue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 7ebd57a..02860de 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -315,11 +315,11 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 		}
 		break
 	}
-	b = b[spacount:]
-	if len(b) == 0{
+	if spacount == len(b){
 		return nil
 	}
-	if b[0] == '-'{
+	//首行的缩进不能去掉
+	if b[spacount] == '-'{
 		v.Reset(VT_Array)
 	}else{
 		v.Reset(VT_Object)
-- 
2.43.0


From 92d78621262a0b368cb8d4bb61ae75203202877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 43/58] fix: Go values lost or panicking when converted to a
 tree (uint fields, nil pointers and elements, named types, empty maps,
 pointer implementers)

---
 dxvalue.go       |  17 --
 reflect_parse.go | 474 ++++++++++++++---------------------------------
 2 files changed, 136 insertions(+), 355 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 02860de..4825079 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
-	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -1298,22 +1297,6 @@ func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
 	}
 }
 
-func getRealValue(v *reflect.Value)*reflect.Value  {
-	if !v.IsValid(){
-		return nil
-	}
-	if v.Kind() == reflect.Ptr{
-		if !v.IsNil(){
-			va := v.Elem()
-			return getRealValue(&va)
-		}else{
-			return nil
-		}
-	}
-	return v
-}
-
-
 func (v *DxValue)SetIndex(idx int,tp ValueType)*DxValue  {
 	return v.SetIndexCached(idx,tp,v.ownercache)
 }
diff --git a/reflect_parse.go b/reflect_parse.go
index d9f47b1..aec9bae 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -185,10 +185,126 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//nil或者空指针，对应的就是null
+func isNilValue(value interface{})bool  {
+	if value == nil{
+		return true
+	}
+	reflectv := reflect.ValueOf(value)
+	return reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
+}
+
+//解开指针，直到实际的值或者能够自己编码的指针
+func reflectRealValue(value interface{})reflect.Value  {
+	reflectv := reflect.ValueOf(value)
+	for reflectv.Kind() == reflect.Ptr && !reflectv.IsNil() && !reflectv.Type().Implements(ValueMarshalerType){
+		reflectv = reflectv.Elem()
+		if reflectv.Kind() == reflect.Interface{
+			reflectv = reflectv.Elem()
+		}
+	}
+	return reflectv
+}
+
+func reflectSupported(reflectv reflect.Value)bool  {
+	if !reflectv.IsValid() || reflectv.Type().Implements(ValueMarshalerType){
+		return true
+	}
+	switch reflectv.Kind() {
+	case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
+		reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64,
+		reflect.Bool,reflect.Float32,reflect.Float64,reflect.String,
+		reflect.Struct,reflect.Slice,reflect.Ptr:
+		return true
+	case reflect.Map:
+		return reflectv.Type().Key().Kind() == reflect.String
+	}
+	return false
+}
+
+func (v *DxValue)setReflectValue(reflectv reflect.Value,cache *ValueCache)  {
+	if !reflectSupported(reflectv){
+		return
+	}
+	if !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil(){
+		v.Reset(VT_NULL)
+		return
+	}
+	if reflectv.CanInterface(){
+		if marshaler,ok := reflectv.Interface().(DxValueMarshaler);ok{
+			marshaler.EncodeToDxValue(v)
+			return
+		}
+	}
+	switch reflectv.Kind(){
+	case reflect.Ptr:
+		v.setReflectValue(reflectv.Elem(),cache)
+	case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+		v.SetInt(reflectv.Int())
+	case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+		v.SetInt(int64(reflectv.Uint()))
+	case reflect.Bool:
+		v.SetBool(reflectv.Bool())
+	case reflect.Float32:
+		v.SetFloat(float32(reflectv.Float()))
+	case reflect.Float64:
+		v.SetDouble(reflectv.Float())
+	case reflect.String:
+		v.SetString(reflectv.String())
+	case reflect.Struct:
+		rtype := reflectv.Type()
+		if rtype == TimeType && reflectv.CanInterface(){
+			v.Reset(VT_DateTime)
+			v.SetTime(reflectv.Interface().(time.Time))
+			return
+		}
+		v.Reset(VT_Object)
+		for i := 0;i < rtype.NumField();i++{
+			sfield := rtype.Field(i)
+			fv := reflectv.Field(i)
+			if fv.CanInterface(){
+				v.SetKeyvalue(sfield.Name,fv.Interface(),cache)
+				continue
+			}
+			//未导出的字段只处理简单类型
+			if fv.Kind() == reflect.Ptr{
+				fv = fv.Elem()
+			}
+			switch fv.Kind() {
+			case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
+				reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64,
+				reflect.Bool,reflect.Float32,reflect.Float64,reflect.String:
+				v.SetKeyCached(sfield.Name,VT_Int,cache).setReflectValue(fv,cache)
+			}
+		}
+	case reflect.Map:
+		v.Reset(VT_Object)
+		for _,kv := range reflectv.MapKeys(){
+			rvalue := reflectv.MapIndex(kv)
+			if rvalue.CanInterface(){
+				v.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
+			}
+		}
+	case reflect.Slice:
+		v.Reset(VT_Array)
+		vlen := reflectv.Len()
+		for i := 0;i<vlen;i++{
+			av := reflectv.Index(i)
+			if av.CanInterface(){
+				v.SetIndexvalue(i,av.Interface(),cache)
+			}
+		}
+	}
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
+	if isNilValue(value){
+		v.Reset(VT_NULL)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetInt(int64(realv))
@@ -255,8 +371,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
@@ -319,143 +437,16 @@ func (v *DxValue)SetValue(value interface{})  {
 			v.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
 	default:
-		//判断一下是否是结构体
-		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
-			return
-		}
-		if reflectv.Type().Implements(ValueMarshalerType){
-			value.(DxValueMarshaler).EncodeToDxValue(v)
-			return
-		}
-		if reflectv.Kind() == reflect.Ptr{
-			reflectv = reflectv.Elem()
-		}/*else if reflect.PtrTo(reflectv.Type()).Implements(ValueMarshalerType){
-			value.(DxValueMarshaler).EncodeToDxValue(v)
-			return
-		}*/
-		switch reflectv.Kind(){
-		case reflect.Struct:
-			tp := reflectv.Type()
-			if tp == TimeType{
-				vi := reflectv.Interface()
-				v.SetTime(vi.(time.Time))
-				return
-			}else if tp == TimePtrType{
-				vi := reflectv.Interface()
-				v.SetTime(*(vi.(*time.Time)))
-				return
-			}
-			v.Reset(VT_Object)
-			cache := v.ValueCache()
-			rtype := reflectv.Type()
-			for i := 0;i < rtype.NumField();i++{
-				sfield := rtype.Field(i)
-				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
-					fv = fv.Elem()
-				}
-				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
-				case reflect.Bool:
-					if fv.Bool(){
-						v.SetKeyValue(sfield.Name,valueTrue)
-					}else{
-						v.SetKeyValue(sfield.Name,valueFalse)
-					}
-				case reflect.Float32:
-					v.SetKeyCached(sfield.Name,VT_Double,cache).SetFloat(float32(fv.Float()))
-				case reflect.Float64:
-					v.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
-				case reflect.String:
-					v.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
-				default:
-					if fv.CanInterface(){
-						fvtp := fv.Type()
-						if fvtp.Implements(ValueMarshalerType){
-							fv.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
-						}else if fvtp == TimeType{
-							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(fv.Interface().(time.Time))
-						}else if fvtp == TimePtrType{
-							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(*(fv.Interface().(*time.Time)))
-						}else{
-							v.SetKeyvalue(sfield.Name,fv.Interface(),cache)
-						}
-					}
-				}
-			}
-		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
-				return
-			}
-			v.Reset(VT_Object)
-			cache := v.ValueCache()
-			for _,kv = range mapkeys{
-				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
-					rvalue = rvalue.Elem()
-				}
-				switch rvalue.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
-					v.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
-				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					v.SetKeyCached(kv.String(),VT_Int,cache).SetInt(int64(rvalue.Uint()))
-				case reflect.Bool:
-					if rvalue.Bool(){
-						v.SetKeyValue(kv.String(),valueTrue)
-					}else{
-						v.SetKeyValue(kv.String(),valueFalse)
-					}
-				case reflect.Float32:
-					v.SetKeyCached(kv.String(),VT_Double,cache).SetFloat(float32(rvalue.Float()))
-				case reflect.Float64:
-					v.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
-				case reflect.String:
-					v.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
-				default:
-					if rvalue.CanInterface(){
-						rvType := rvalue.Type()
-						if rvType.Implements(ValueMarshalerType){
-							rvalue.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
-						}else if rvType == TimeType{
-							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(rvalue.Interface().(time.Time))
-						}else if rvType == TimePtrType{
-							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(*(rvalue.Interface().(*time.Time)))
-						}else{
-							v.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
-						}
-					}
-				}
-			}
-		case reflect.Slice:
-			v.Reset(VT_Array)
-			cache := v.ValueCache()
-			vlen := reflectv.Len()
-			for i := 0;i<vlen;i++{
-				av := reflectv.Index(i)
-				realvalue := getRealValue(&av)
-				if realvalue == nil{
-					v.SetIndexCached(i,VT_NULL,cache)
-				}else if realvalue.CanInterface(){
-					v.SetIndexvalue(i,realvalue.Interface(),cache)
-				}
-			}
-		}
-
+		v.setReflectValue(reflectRealValue(value),v.ValueCache())
 	}
 }
 
+
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetKeyCached(Name,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -582,116 +573,19 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
 	default:
-		//判断一下是否是结构体
-		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
-			return
-		}
-		if reflectv.Type().Implements(ValueMarshalerType){
-			value.(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(Name,VT_Int,cache))
-			return
-		}
-		if reflectv.Kind() == reflect.Ptr{
-			reflectv = reflectv.Elem()
-		}
-		switch reflectv.Kind(){
-		case reflect.Struct:
-			rtype := reflectv.Type()
-			if rtype == TimeType{
-				v.SetKeyCached(Name,VT_DateTime,cache).SetTime(reflectv.Interface().(time.Time))
-				return
-			}else if rtype == TimePtrType{
-				v.SetKeyCached(Name,VT_DateTime,cache).SetTime(*(reflectv.Interface().(*time.Time)))
-				return
-			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
-			for i := 0;i < rtype.NumField();i++{
-				sfield := rtype.Field(i)
-				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
-					fv = fv.Elem()
-				}
-				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
-				case reflect.Bool:
-					if fv.Bool(){
-						newv.SetKeyValue(sfield.Name,valueTrue)
-					}else{
-						newv.SetKeyValue(sfield.Name,valueFalse)
-					}
-				case reflect.Float32:
-					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetFloat(float32(fv.Float()))
-				case reflect.Float64:
-					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
-				case reflect.String:
-					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
-				default:
-					if fv.CanInterface(){
-						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
-					}
-				}
-			}
-		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
-				return
-			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
-			for _,kv = range mapkeys{
-				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
-					rvalue = rvalue.Elem()
-				}
-				switch rvalue.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
-					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
-				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(int64(rvalue.Uint()))
-				case reflect.Bool:
-					if rvalue.Bool(){
-						newv.SetKeyValue(kv.String(),valueTrue)
-					}else{
-						newv.SetKeyValue(kv.String(),valueFalse)
-					}
-				case reflect.Float32:
-					newv.SetKeyCached(kv.String(),VT_Double,cache).SetFloat(float32(rvalue.Float()))
-				case reflect.Float64:
-					newv.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
-				case reflect.String:
-					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
-				default:
-					if rvalue.CanInterface(){
-						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
-					}
-				}
-			}
-		case reflect.Slice:
-			newv := v.SetKeyCached(Name,VT_Array,cache)
-			vlen := reflectv.Len()
-			for i := 0;i<vlen;i++{
-				av := reflectv.Index(i)
-				realvalue := getRealValue(&av)
-				if realvalue == nil{
-					newv.SetIndexCached(i,VT_NULL,cache)
-				}else if realvalue.CanInterface(){
-					newv.SetIndexvalue(i,realvalue.Interface(),cache)
-				}
-			}
+		reflectv := reflectRealValue(value)
+		if reflectSupported(reflectv){
+			v.SetKeyCached(Name,VT_Int,cache).setReflectValue(reflectv,cache)
 		}
-
 	}
 }
 
+
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetIndexCached(idx,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
@@ -818,110 +712,14 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
 	default:
-		//判断一下是否是结构体
-		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
-			return
+		reflectv := reflectRealValue(value)
+		if reflectSupported(reflectv){
+			v.SetIndexCached(idx,VT_Int,cache).setReflectValue(reflectv,cache)
 		}
-		rtype := reflectv.Type()
-		if rtype.Implements(ValueMarshalerType){
-			value.(DxValueMarshaler).EncodeToDxValue(v.SetIndexCached(idx,VT_Int,cache))
-			return
-		}
-		if reflectv.Kind() == reflect.Ptr{
-			reflectv = reflectv.Elem()
-			rtype = reflectv.Type()
-		}
-		switch reflectv.Kind(){
-		case reflect.Struct:
-			newv := v.SetIndexCached(idx,VT_Object,cache)
-			for i := 0;i < rtype.NumField();i++{
-				sfield := rtype.Field(i)
-				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
-					fv = fv.Elem()
-				}
-				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
-				case reflect.Bool:
-					if fv.Bool(){
-						newv.SetKeyValue(sfield.Name,valueTrue)
-					}else{
-						newv.SetKeyValue(sfield.Name,valueFalse)
-					}
-				case reflect.Float32:
-					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetFloat(float32(fv.Float()))
-				case reflect.Float64:
-					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
-				case reflect.String:
-					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
-				default:
-					if fv.CanInterface(){
-						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
-					}
-				}
-			}
-		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
-				return
-			}
-			newv := v.SetIndexCached(idx,VT_Object,cache)
-			for _,kv = range mapkeys{
-				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
-					rvalue = rvalue.Elem()
-				}
-				switch rvalue.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
-					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
-				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(int64(rvalue.Uint()))
-				case reflect.Bool:
-					if rvalue.Bool(){
-						newv.SetKeyValue(kv.String(),valueTrue)
-					}else{
-						newv.SetKeyValue(kv.String(),valueFalse)
-					}
-				case reflect.Float32:
-					newv.SetKeyCached(kv.String(),VT_Double,cache).SetFloat(float32(rvalue.Float()))
-				case reflect.Float64:
-					newv.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
-				case reflect.String:
-					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
-				default:
-					if rvalue.CanInterface(){
-						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
-					}
-				}
-			}
-		case reflect.Slice:
-			//数组的话
-			newarr := v.SetIndexCached(idx,VT_Array,cache)
-			vlen := reflectv.Len()
-			for i := 0;i<vlen;i++{
-				av := reflectv.Index(i)
-				realvalue := getRealValue(&av)
-				if realvalue == nil{
-					newarr.SetIndexCached(i,VT_NULL,cache)
-				}else if realvalue.CanInterface(){
-					newarr.SetIndexvalue(i,realvalue.Interface(),cache)
-				}
-			}
-		}
-
 	}
 }
 
+
 //转换到标砖的数据
 func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 	switch value := destv.(type) {
-- 
2.43.0


From 3b4ade752e40daa130f03ed4c87768bc2d3b71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:00 +0000
Subject: [PATCH 44/58] fix: export into Go values (unexported fields panic,
 arrays, byte slices, pointer implementers, nested generic slices)

---
 reflect_parse.go | 313 ++++++++++++++++-------------------------------
 1 file changed, 106 insertions(+), 207 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index aec9bae..292b53f 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"encoding/json"
+	"math"
 	"reflect"
 	"strings"
 	"time"
@@ -12,40 +13,7 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 		for i := 0;i<valueType.NumField();i++{
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
-				childreflectv := fvalue.Field(i)
-				tp := fld.Type
-				if tp.Implements(ValueUnMarshalerType){
-					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
-					break
-				}
-				vhandler,ok := structTypePool.Load(tp)
-				if ok && vhandler != nil{
-					convertHandler := vhandler.(StdValueFromDxValue)
-					if convertHandler != nil{
-						convertHandler(childreflectv,childvalue)
-						break
-					}
-				}
-				switch tp.Kind() {
-				case reflect.String:
-					childreflectv.SetString(childvalue.String())
-				case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
-					childreflectv.SetInt(childvalue.Int())
-				case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
-					childreflectv.SetUint(uint64(childvalue.Int()))
-				case reflect.Float32,reflect.Float64:
-					childreflectv.SetFloat(childvalue.Double())
-				case reflect.Bool:
-					childreflectv.SetBool(childvalue.Bool())
-				case reflect.Slice:
-					decodeArray2reflect(childreflectv,childvalue,ignoreCase)
-				case reflect.Struct:
-					if tp == TimeType {
-						childreflectv.Set(reflect.ValueOf(childvalue.GoTime()))
-					}else{
-						decode2reflectFromdxValue(childreflectv,childvalue,ignoreCase,tp)
-					}
-				}
+				setReflectFromValue(fvalue.Field(i),childvalue,ignoreCase)
 				break
 			}
 		}
@@ -53,138 +21,87 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 	})
 }
 
-func growSliceValue(v reflect.Value, n int) reflect.Value {
-	diff := n - v.Len()
-	if diff > 256 {
-		diff = 256
-	}
-	v = reflect.AppendSlice(v, reflect.MakeSlice(v.Type(), diff, diff))
-	return v
-}
-
-func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
-	if arrvalue.DataType != VT_Array{
+//将值写入到反射的目标中，返回目标是否支持
+func setReflectFromValue(dest reflect.Value,value *DxValue,ignoreCase bool)bool  {
+	if !dest.CanSet(){
 		return false
 	}
-	n := arrvalue.Count()
-	if n == 0{
-		return false
-	}
-	var vtype reflect.Type
-	if sliceValue.Cap() == 0{
-		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
-		sliceValue.Set(vslice.Slice(0, n))
-	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
-		sliceValue.Set(sliceValue.Slice(0, n))
-	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
-		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
-	}
-
-	if vtype.Implements(ValueUnMarshalerType){
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+	tp := dest.Type()
+	if tp.Implements(ValueUnMarshalerType){
+		if tp.Kind() == reflect.Ptr && dest.IsNil(){
+			dest.Set(reflect.New(tp.Elem()))
+		}else if tp.Kind() == reflect.Interface && dest.IsNil(){
+			return false
 		}
+		dest.Interface().(DxValueUnMarshaler).DecodeFromDxValue(value)
 		return true
 	}
-
-	vhandler,ok := structTypePool.Load(vtype)
+	vhandler,ok := structTypePool.Load(tp)
 	if ok && vhandler != nil{
 		convertHandler := vhandler.(StdValueFromDxValue)
 		if convertHandler != nil{
-			for i := 0;i<n;i++{
-				arrNode := arrvalue.ValueByIndex(i)
-				if i >= sliceValue.Len() {
-					sliceValue.Set(growSliceValue(sliceValue, n))
-				}
-				convertHandler(sliceValue.Field(i),arrNode)
-			}
+			convertHandler(dest,value)
 			return true
 		}
 	}
-
-	if vtype == TimeType{
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
-		}
+	if reflect.PtrTo(tp).Implements(ValueUnMarshalerType){
+		dest.Addr().Interface().(DxValueUnMarshaler).DecodeFromDxValue(value)
 		return true
 	}
-	switch vtype.Kind() {
+	switch tp.Kind() {
 	case reflect.String:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetString(arrNode.String())
-		}
+		dest.SetString(value.String())
 	case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetInt(arrNode.Int())
-		}
+		dest.SetInt(value.Int())
 	case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetUint(uint64(arrNode.Int()))
-		}
+		dest.SetUint(uint64(value.Int()))
 	case reflect.Float32,reflect.Float64:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetFloat(arrNode.Double())
-		}
+		dest.SetFloat(value.Double())
 	case reflect.Bool:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetBool(arrNode.Bool())
-		}
+		dest.SetBool(value.Bool())
 	case reflect.Slice:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			decodeArray2reflect(sliceValue.Index(i),arrNode,ignoreCase)
-		}
+		decodeArray2reflect(dest,value,ignoreCase)
 	case reflect.Struct:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-
-			decode2reflectFromdxValue(sliceValue.Index(i),arrNode,ignoreCase,vtype)
+		if tp == TimeType {
+			dest.Set(reflect.ValueOf(value.GoTime()))
+		}else{
+			decode2reflectFromdxValue(dest,value,ignoreCase,tp)
+		}
+	case reflect.Interface:
+		if tp.NumMethod() != 0{
+			return false
+		}
+		if stdvalue := value.stdValue(ignoreCase);stdvalue != nil{
+			dest.Set(reflect.ValueOf(stdvalue))
+		}else{
+			dest.Set(reflect.Zero(tp))
 		}
-
 	default:
 		return false
 	}
 	return true
 }
 
+func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
+	vtype := sliceValue.Type().Elem()
+	if vtype.Kind() == reflect.Uint8 && (arrvalue.DataType == VT_Binary || arrvalue.DataType == VT_ExBinary){
+		sliceValue.SetBytes(append([]byte{},arrvalue.Binary()...))
+		return true
+	}
+	if arrvalue.DataType != VT_Array{
+		return false
+	}
+	n := arrvalue.Count()
+	newslice := reflect.MakeSlice(sliceValue.Type(), n, n)
+	for i := 0;i<n;i++{
+		if !setReflectFromValue(newslice.Index(i),arrvalue.ValueByIndex(i),ignoreCase){
+			return false
+		}
+	}
+	sliceValue.Set(newslice)
+	return true
+}
+
 //nil或者空指针，对应的就是null
 func isNilValue(value interface{})bool  {
 	if value == nil{
@@ -720,6 +637,41 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 }
 
 
+//对应的标准Go值
+func (v *DxValue)stdValue(ignoreCase bool)interface{}  {
+	switch v.DataType {
+	case VT_Object:
+		newvalue := make(map[string]interface{},v.Count())
+		v.ToStdValue(newvalue,ignoreCase)
+		return newvalue
+	case VT_Array:
+		newvalue := make([]interface{},v.Count())
+		v.ToStdValue(newvalue,ignoreCase)
+		return newvalue
+	case VT_String,VT_RawString:
+		return v.String()
+	case VT_Int:
+		return v.Int()
+	case VT_DateTime:
+		return v.GoTime()
+	case VT_Double:
+		return v.Double()
+	case VT_NAN:
+		return math.NaN()
+	case VT_INF:
+		return math.Inf(1)
+	case VT_Float:
+		return v.Float()
+	case VT_Binary,VT_ExBinary:
+		return v.Binary()
+	case VT_True:
+		return true
+	case VT_False:
+		return false
+	}
+	return nil
+}
+
 //转换到标砖的数据
 func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 	switch value := destv.(type) {
@@ -770,79 +722,23 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			return false
 		}
 		v.Visit(func(Key string, mapvalue *DxValue) bool {
-			switch mapvalue.DataType {
-			case VT_Object:
-				newvalue := make(map[string]interface{},mapvalue.Count())
-				mapvalue.ToStdValue(newvalue,ignoreCase)
-				value[Key] = newvalue
-			case VT_Array:
-				newvalue := make([]interface{},mapvalue.Count())
-				mapvalue.ToStdValue(newvalue,ignoreCase)
-				value[Key] = newvalue
-			case VT_String,VT_RawString:
-				value[Key] = mapvalue.String()
-			case VT_Int:
-				value[Key] = mapvalue.Int()
-			case VT_DateTime:
-				value[Key] = mapvalue.GoTime()
-			case VT_Double:
-				value[Key] = mapvalue.Double()
-			case VT_Float:
-				value[Key] = mapvalue.Float()
-			case VT_Binary,VT_ExBinary:
-				value[Key] = mapvalue.Binary()
-			case VT_True:
-				value[Key] = true
-			case VT_False:
-				value[Key] = false
-			case VT_NULL:
-				value[Key] = nil
-			}
+			value[Key] = mapvalue.stdValue(ignoreCase)
 			return true
 		})
 	case []interface{}:
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			switch arrvalue.DataType {
-			case VT_Object:
-				newvalue := make(map[string]interface{},arrvalue.Count())
-				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
-			case VT_Array:
-				newvalue := make([]interface{},arrvalue.Count())
-				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
-			case VT_String,VT_RawString:
-				value = append(value,arrvalue.String())
-			case VT_Int:
-				value = append(value,arrvalue.Int())
-			case VT_DateTime:
-				value = append(value,arrvalue.GoTime())
-			case VT_Double:
-				value = append(value,arrvalue.Double())
-			case VT_Float:
-				value = append(value,arrvalue.Float())
-			case VT_Binary,VT_ExBinary:
-				value = append(value,arrvalue.Binary())
-			case VT_True:
-				value = append(value,true)
-			case VT_False:
-				value = append(value,false)
-			case VT_NULL:
-				value = append(value,nil)
-			}
-			return true
-		})
+		for i := 0;i<len(value) && i<v.Count();i++{
+			value[i] = v.ValueByIndex(i).stdValue(ignoreCase)
+		}
 	case []string:
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			value = append(value,arrvalue.String())
-			return true
-		})
+		for i := 0;i<len(value) && i<v.Count();i++{
+			value[i] = v.ValueByIndex(i).String()
+		}
 	default:
 		reflectv := reflect.ValueOf(destv)
 		if !reflectv.IsValid(){
@@ -855,18 +751,21 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			destv.(DxValueUnMarshaler).DecodeFromDxValue(v)
 			return true
 		}
+		if reflectv.IsNil(){
+			return false
+		}
 		reflectv = reflectv.Elem()
 		valueType := reflectv.Type()
 
-		if v.DataType != VT_Object{
-			return false
-		}
-		//反射处理,只处理结构体
+		//反射处理,只处理结构体和数组
 		switch valueType.Kind() {
 		case reflect.Struct:
+			if v.DataType != VT_Object{
+				return false
+			}
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
+			return decodeArray2reflect(reflectv,v,ignoreCase)
 		default:
 			return false
 		}
-- 
2.43.0


From 8114cf400e98e5f4ffc89b64ae33f177c7e4b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:43 +0000
Subject: [PATCH 45/58] fix: CopyFrom/AddFrom panic when the source contains
 the target

---
 dxvalue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 4825079..e210174 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -649,9 +649,10 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
 				continue
 			}
+			newv := fromv.fobject.strkvs[i].V.clone(c) //v可能在fromv中，先复制再增加
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			rkv.V = newv
 		}
 	case VT_Array:
 		c := v.ownercache
@@ -677,9 +678,10 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			newv := fromv.fobject.strkvs[i].V.clone(c) //v可能在fromv中，先复制再增加
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			rkv.V = newv
 		}
 	case VT_Array:
 		c := v.ownercache
-- 
2.43.0


From bdb597c5d6fde0bd13efa0b8ac381357c1cf90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 46/58] fix: YAML alias to the value that contains it

---
 yamlparse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 8cb8813..26445e6 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -79,7 +79,13 @@ func (parser *yamlParser)setCachedUseage(cacheName string,cacheValue *DxValue)
 func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 	for i := 0;i<len(parser.useageValues);i++{
 		if parser.useageValues[i].K == cacheName{
-			return parser.useageValues[i].V
+			v := parser.useageValues[i].V
+			for j := range parser.fParsingValues{
+				if parser.fParsingValues[j].v == v{ //还没有解析完的值，不能引用自身
+					return nil
+				}
+			}
+			return v
 		}
 	}
 	return nil
-- 
2.43.0


From b09a2e748cb66521385670f9c1a52032aa279ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:52 +0000
Subject: [PATCH 47/58] fix: YAML keys of a sequence item lost after a nested
 value of its first key

---
 yamlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 26445e6..7410ca6 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -176,7 +176,8 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,v,true)
 				}
-				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+				//键值的位置在"- "之后
+				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount+2,currentValue})
 
 			}
 		}
-- 
2.43.0


From 6115466979a0de8f2588dc02d02e8f3830ec47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:57 +0000
Subject: [PATCH 48/58] fix: YAML keys containing a colon

---
 yamlparse.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 7410ca6..5fbec10 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -414,18 +414,16 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 	dataline = bytes.TrimFunc(dataline,spaceTrim)
-	splitindex := bytes.IndexByte(dataline,':')
-	if splitindex < 0{
-		return dataline,nil,false
-	}
-	if splitindex < len(dataline) - 1{ //必须有一个空格才算是kV结构
-		if dataline[splitindex + 1] == ' '{
-			return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+2:],spaceTrim),true
+	//必须有一个空格(或者行结束)才算是kV结构，键值中可以有冒号
+	for splitindex := 0;splitindex < len(dataline);splitindex++{
+		if dataline[splitindex] != ':'{
+			continue
+		}
+		if splitindex == len(dataline) - 1 || dataline[splitindex + 1] == ' '{
+			return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
 		}
-		return dataline,nil,false
-	}else{
-		return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
 	}
+	return dataline,nil,false
 }
 
 func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bool)  {
-- 
2.43.0


From 70827f619da18e6103d96484015d42f2586cfd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:12 +0000
Subject: [PATCH 49/58] fix: YAML mapping written after a merge keeps the
 merged mapping's keys

---
 yamlparse.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 5fbec10..63aa0fe 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -171,7 +171,7 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 				if merged{
 				}else if len(v) == 0{
 					//后面的内容是对象或者数组
-					currentValue = currentValue.SetKeyCached(string(k),VT_Object,parser.fparentCache)
+					currentValue = parser.newObjectKey(currentValue,string(k))
 				}else{
 					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,v,true)
@@ -270,6 +270,15 @@ func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []
 	return merged,nil
 }
 
+//增加一个对象键值，覆盖之前可能归并过来的同名对象
+func (parser *yamlParser)newObjectKey(parent *DxValue,key string)*DxValue  {
+	result := parent.SetKeyCached(key,VT_Object,parser.fparentCache)
+	if result.Count() > 0{
+		result.Reset(VT_Object)
+	}
+	return result
+}
+
 func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 	var currentValue *DxValue
 	//非数组
@@ -318,7 +327,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 				parser.parseStringValue(currentValue,value,true)
 			}else{
 				//是一个新的对象
-				currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
+				currentValue = parser.newObjectKey(currentValue,string(key))
 			}
 		}
 		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
@@ -347,7 +356,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 		vkey := string(key)
 		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+			currentValue = parser.newObjectKey(currentValue,vkey)
 		}else{
 			//判定一下是否是引用界定值
 			if value[0] != '&'{
@@ -379,7 +388,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 					refKey = string(value[1:])
 				}
 				if isrefObject{
-					currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+					currentValue = parser.newObjectKey(currentValue,vkey)
 				}else{
 					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,value,true)
@@ -394,7 +403,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
 		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
+			currentValue = parser.newObjectKey(currentValue,string(key))
 		}else{
 			merged,err := parser.mergeObject(currentValue,dataLine,key,value)
 			if err != nil{
-- 
2.43.0


From 431981b0eb24dc6a63757eb302c280a3136e60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:31 +0000
Subject: [PATCH 50/58] fix: Clear of an uncached container recycles nodes that
 were extracted from it

---
 cache.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cache.go b/cache.go
index 0b8a29d..06de1b6 100644
--- a/cache.go
+++ b/cache.go
@@ -15,13 +15,10 @@ type	ValueCache struct {
 
 func (c *ValueCache)getValue(t ValueType)*DxValue  {
 	if c == nil{
-		c = &ValueCache{
-			fisroot:	false,
-			Value:    make([]DxValue,0,8),
-		}
-		c.Value = append(c.Value, DxValue{DataType: t,
-			ownercache: c,})
-		return &c.Value[len(c.Value)-1]
+		//没有使用缓存的值不能回收，Clear之后，之前取出来的子节点还可能在使用
+		result := &DxValue{}
+		result.Reset(t)
+		return result
 	}
 	if cap(c.Value) > len(c.Value) {
 		c.Value = c.Value[:len(c.Value)+1]
-- 
2.43.0


From fcb14e8493308a15177b44cc746a50ac33686746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:31 +0000
Subject: [PATCH 51/58] fix: setting an undecoded string entry to type string
 lost its text

---
 dxvalue.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e210174..c5b7d2d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1237,8 +1237,13 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
-		}else if result.DataType != tp {
-			result.Reset(tp)
+		}else{
+			if tp == VT_String && result.DataType == VT_RawString{
+				result.String() //未转义的字符串也是字符串，先转义，内容不变
+			}
+			if result.DataType != tp {
+				result.Reset(tp)
+			}
 		}
 		return result
 	}
@@ -1324,8 +1329,13 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.farr[idx] = result
-		}else if result.DataType != tp {
-			result.Reset(tp)
+		}else{
+			if tp == VT_String && result.DataType == VT_RawString{
+				result.String() //未转义的字符串也是字符串，先转义，内容不变
+			}
+			if result.DataType != tp {
+				result.Reset(tp)
+			}
 		}
 		return result
 	}else{
-- 
2.43.0


From be2f7c0ab846467e751c51ca057933c72afe81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:29 +0000
Subject: [PATCH 52/58] fix: LoadFromYaml accepted a first line that is no key,
 unlike NewValueFromYaml

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 63aa0fe..f5c0962 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -306,7 +306,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 	key,value,hasKeySplit := parser.splitKv(dataLine)
 
-	if lastIndex < 0{
+	if parser.lastSpaceCount < 0{ //第一行
 		if len(key) == 0 || !hasKeySplit{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
-- 
2.43.0


From 3576d9dcfc3b14f15f5823bf206e3485930af7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:37 +0000
Subject: [PATCH 53/58] fix: a byte slice behind several pointers became an
 array of numbers

---
 reflect_parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 292b53f..3925492 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -152,6 +152,11 @@ func (v *DxValue)setReflectValue(reflectv reflect.Value,cache *ValueCache)  {
 			marshaler.EncodeToDxValue(v)
 			return
 		}
+		if binary,ok := reflectv.Interface().([]byte);ok{
+			v.Reset(VT_Binary)
+			v.SetBinary(binary,true)
+			return
+		}
 	}
 	switch reflectv.Kind(){
 	case reflect.Ptr:
-- 
2.43.0


From 82ae399e3a9fd0d216247e01160226cd40c0a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 54/58] fix: times are an hour or a day off in a time zone
 whose offset changes

---
 dxvalue.go      | 16 ++++++++++++----
 msgpackparse.go | 12 ++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index c5b7d2d..794e064 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1044,11 +1044,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
 		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2DelphiTime(t)
 		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2DelphiTime(t)
 		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2DelphiTime(t)
 		}
 	}
 	return -1
@@ -1080,6 +1080,14 @@ func (v *DxValue)SetDouble(value float64)  {
 	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = value
 }
 
+//转为Delphi日期，DelphiTime的ToTime是按照与起始时间的间隔计算的，时区的偏移会变动(夏令时等)，所以不能用当天的钟点来计算
+func time2DelphiTime(t time.Time)DxCommonLib.TDateTime  {
+	if t.IsZero(){
+		return 0
+	}
+	return DxCommonLib.TDateTime(float64(t.Sub(DxCommonLib.TDateTime(0).ToTime()))/float64(time.Hour*24))
+}
+
 func (v *DxValue)SetTime(value time.Time)  {
 	if v.ReadOnly(){
 		return
@@ -1087,7 +1095,7 @@ func (v *DxValue)SetTime(value time.Time)  {
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value.In(time.Local)))
+	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(time2DelphiTime(value))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
diff --git a/msgpackparse.go b/msgpackparse.go
index 61e132f..d89dd06 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -302,19 +302,19 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
 				t := time.Unix(int64(sec), 0)
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2DelphiTime(t)))
 			case CodeFixExt8:
 				//64位时间格式
 				sec := binary.BigEndian.Uint64(b[1:])
 				nsec := int64(sec >> 34)
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2DelphiTime(t)))
 			default:
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2DelphiTime(t)))
 			}
 		}else{
 			result = c.getValue(VT_ExBinary)
@@ -475,19 +475,19 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
 				t := time.Unix(int64(sec), 0)
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2DelphiTime(t)))
 			case CodeFixExt8:
 				//64位时间格式
 				sec := binary.BigEndian.Uint64(b[1:])
 				nsec := int64(sec >> 34)
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2DelphiTime(t)))
 			default:
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2DelphiTime(t)))
 			}
 		}else{
 			v.Reset(VT_ExBinary)
-- 
2.43.0


From 8263415ab31997b97dfdeb985397a80d31c8d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 55/58] fix: a stored time reads back a millisecond early and
 is written a second early

---
 dxvalue.go   | 11 +++++++++--
 jsonparse.go |  8 ++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 794e064..8666911 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -798,7 +798,7 @@ func (v *DxValue)String()string  {
 		return strconv.FormatFloat(float64(vf),'f',-1,64)
 	case VT_DateTime:
 		dt := *((*DxCommonLib.TDateTime)(unsafe.Pointer(&v.simpleV[0])))
-		return dt.ToTime().Format("2006-01-02 15:04:05")
+		return delphi2Time(dt).Format("2006-01-02 15:04:05")
 	case VT_String:
 		return v.fstrvalue
 	case VT_NULL:
@@ -1057,7 +1057,7 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 func (v *DxValue)GoTime()time.Time  {
 	switch v.DataType {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
-		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
+		return delphi2Time((DxCommonLib.TDateTime)(v.Double()))
 	case VT_String,VT_RawString:
 		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
@@ -1088,6 +1088,13 @@ func time2DelphiTime(t time.Time)DxCommonLib.TDateTime  {
 	return DxCommonLib.TDateTime(float64(t.Sub(DxCommonLib.TDateTime(0).ToTime()))/float64(time.Hour*24))
 }
 
+//从Delphi日期转回来，毫秒需要四舍五入，否则浮点误差会少掉1毫秒
+func delphi2Time(date DxCommonLib.TDateTime)time.Time  {
+	days := DxCommonLib.TDateTime(time.Duration(date))
+	ms := math.Round(float64(date - days) * float64(DxCommonLib.MSecsPerDay))
+	return days.ToTime().Add(time.Duration(ms) * time.Millisecond)
+}
+
 func (v *DxValue)SetTime(value time.Time)  {
 	if v.ReadOnly(){
 		return
diff --git a/jsonparse.go b/jsonparse.go
index 4725c7b..a367a93 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -833,12 +833,12 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := int64(delphi2Time(v.DateTime()).Unix()*1000)
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,delphi2Time(v.DateTime()).Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
@@ -930,12 +930,12 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := int64(delphi2Time(v.DateTime()).Unix()*1000)
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,delphi2Time(v.DateTime()).Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
-- 
2.43.0


From c877e43f5f481ff3bf8512561ea311e90245f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:17 +0000
Subject: [PATCH 56/58] fix: a JSON date is read with the clock's fraction of a
 second and an hour off in summer time

---
 jsonparse.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index a367a93..9b2c3d6 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -8,6 +8,8 @@ import (
 	"math"
 	"os"
 	"strconv"
+	"strings"
+	"time"
 	"unicode/utf16"
 	"unicode/utf8"
 )
@@ -463,7 +465,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 		}
 		//先判断一下是否是Json的日期格式
 		var result *DxValue
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonTime(ss)
 		if dt < 0{
 			result = c.getValue(VT_RawString)
 			result.fstrvalue = ss
@@ -498,6 +500,24 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	return parseJsonNum(b,c)
 }
 
+//解析Json的日期格式，返回小于0表示不是日期。没有带时区的直接按照Unix时间转换，毫秒保留，不受当前时间以及夏令时的影响
+func parseJsonTime(s string)DxCommonLib.TDateTime  {
+	number := ""
+	if strings.HasPrefix(s,"/Date(") && strings.HasSuffix(s,")/"){
+		number = s[6:len(s)-2]
+	}else if strings.HasPrefix(s,"Date(") && strings.HasSuffix(s,")"){
+		number = s[5:len(s)-1]
+	}
+	ms,err := strconv.ParseInt(number,10,64)
+	if err != nil || number[0] == '+'{
+		return DxCommonLib.ParserJsonTime(s)
+	}
+	if ms >= 0 && len(number) <= 9{ //秒
+		ms *= 1000
+	}
+	return time2DelphiTime(time.Unix(ms/1000,ms%1000*int64(time.Millisecond)))
+}
+
 func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,&ErrorParseJson{
@@ -518,7 +538,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 			return tail, err
 		}
 		//先判断一下是否是Json的日期格式
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonTime(ss)
 		if dt < 0{
 			v.Reset(VT_RawString)
 			v.fstrvalue = ss
-- 
2.43.0


From 8c95ed8aa8fde541a2afde14afa78195695bcb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:03 +0000
Subject: [PATCH 57/58] fix: a slice or map stored over a container keeps
 entries of the old one

---
 reflect_parse.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 3925492..f60948b 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -446,51 +446,61 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
 		newv := v.SetKeyCached(Name,VT_Object,v.ownercache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -585,51 +595,61 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
 		newv := v.SetIndexCached(idx,VT_Object,v.ownercache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
-- 
2.43.0


From 0f1eb8222791bc43d7f8bd780d895b448a80f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:27 +0000
Subject: [PATCH 58/58] fix: equality of numbers is not transitive (negative
 zero, integers beyond 2^53)

---
 dxvalue.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8666911..e1e0cec 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -542,11 +542,13 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
-			return v.Double() == value.Double()
+			return v.equalNumber(value)
 		}
 		return false
 	}
 	switch v.DataType {
+	case VT_Float,VT_Double:
+		return v.equalNumber(value)
 	case VT_String,VT_RawString:
 		return v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
@@ -581,6 +583,19 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	return true
 }
 
+//按数值比较，整数和浮点数之间也精确比较
+func (v *DxValue)equalNumber(value *DxValue)bool  {
+	if v.DataType == VT_Int{
+		v,value = value,v
+	}
+	f := v.Double()
+	if value.DataType == VT_Int{
+		return f >= math.MinInt64 && f < math.MaxInt64 && f == math.Trunc(f) && int64(f) == value.Int()
+	}
+	f2 := value.Double()
+	return f == f2 || f != f && f2 != f2
+}
+
 func (v *DxValue)TimeByName(Key string,defv time.Time)time.Time  {
 	return v.GoTimeByPath(defv,Key)
 }
-- 
2.43.0

