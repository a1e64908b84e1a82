From 20d7d3e5abf2666743bc2fa3aeff9a614ebbd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 1/2] fix: keep Len between zero and the number of distinct
 values

Add counted a value after it had become visible and Remove uncounted it after
the value could be added again, so a concurrent Len could return a negative
number, or 2 for a set of at most one value.
---
 gen_func.go        | 8 ++++++--
 gen_int.go         | 8 ++++++--
 gen_int32.go       | 8 ++++++--
 gen_int32desc.go   | 8 ++++++--
 gen_int64.go       | 8 ++++++--
 gen_int64desc.go   | 8 ++++++--
 gen_intdesc.go     | 8 ++++++--
 gen_ordered.go     | 8 ++++++--
 gen_ordereddesc.go | 8 ++++++--
 gen_string.go      | 8 ++++++--
 gen_stringdesc.go  | 8 ++++++--
 gen_uint.go        | 8 ++++++--
 gen_uint32.go      | 8 ++++++--
 gen_uint32desc.go  | 8 ++++++--
 gen_uint64.go      | 8 ++++++--
 gen_uint64desc.go  | 8 ++++++--
 gen_uintdesc.go    | 8 ++++++--
 skipset.tpl        | 8 ++++++--
 18 files changed, 108 insertions(+), 36 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 1c87d41..7265268 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -156,9 +156,11 @@ func (s *FuncSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -220,6 +222,9 @@ func (s *FuncSet[T]) Remove(value T) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -253,7 +258,6 @@ func (s *FuncSet[T]) Remove(value T) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockfunc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int.go b/gen_int.go
index 1c0f06d..26ea379 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -154,9 +154,11 @@ func (s *IntSet) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *IntSet) Remove(value int) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *IntSet) Remove(value int) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int32.go b/gen_int32.go
index d35b998..c9522df 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -154,9 +154,11 @@ func (s *Int32Set) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Int32Set) Remove(value int32) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Int32Set) Remove(value int32) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int32desc.go b/gen_int32desc.go
index e3b3187..7ac33ac 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -154,9 +154,11 @@ func (s *Int32SetDesc) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Int32SetDesc) Remove(value int32) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Int32SetDesc) Remove(value int32) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int64.go b/gen_int64.go
index 2fb0530..8a99ee9 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -154,9 +154,11 @@ func (s *Int64Set) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Int64Set) Remove(value int64) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Int64Set) Remove(value int64) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 7bd45e6..0431a3c 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -154,9 +154,11 @@ func (s *Int64SetDesc) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Int64SetDesc) Remove(value int64) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Int64SetDesc) Remove(value int64) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 2add73e..9e92b09 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -154,9 +154,11 @@ func (s *IntSetDesc) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *IntSetDesc) Remove(value int) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *IntSetDesc) Remove(value int) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_ordered.go b/gen_ordered.go
index 05d7644..648b223 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -154,9 +154,11 @@ func (s *OrderedSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *OrderedSet[T]) Remove(value T) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *OrderedSet[T]) Remove(value T) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockordered(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7408ec4..5de261b 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -154,9 +154,11 @@ func (s *OrderedSetDesc[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *OrderedSetDesc[T]) Remove(value T) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *OrderedSetDesc[T]) Remove(value T) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_string.go b/gen_string.go
index b0eccb1..dd9af63 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -154,9 +154,11 @@ func (s *StringSet) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *StringSet) Remove(value string) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *StringSet) Remove(value string) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockstring(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 139f433..e33fed1 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -154,9 +154,11 @@ func (s *StringSetDesc) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *StringSetDesc) Remove(value string) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *StringSetDesc) Remove(value string) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint.go b/gen_uint.go
index 23e689a..a327360 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -154,9 +154,11 @@ func (s *UintSet) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *UintSet) Remove(value uint) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *UintSet) Remove(value uint) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint32.go b/gen_uint32.go
index b3f49ed..7ae172d 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -154,9 +154,11 @@ func (s *Uint32Set) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Uint32Set) Remove(value uint32) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Uint32Set) Remove(value uint32) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index fdb0151..c367573 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -154,9 +154,11 @@ func (s *Uint32SetDesc) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Uint32SetDesc) Remove(value uint32) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Uint32SetDesc) Remove(value uint32) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint64.go b/gen_uint64.go
index c0cbc8f..e9423de 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -154,9 +154,11 @@ func (s *Uint64Set) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Uint64Set) Remove(value uint64) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Uint64Set) Remove(value uint64) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index bf66e05..cd23170 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -154,9 +154,11 @@ func (s *Uint64SetDesc) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *Uint64SetDesc) Remove(value uint64) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *Uint64SetDesc) Remove(value uint64) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 430a8fb..a118a09 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -154,9 +154,11 @@ func (s *UintSetDesc) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -218,6 +220,9 @@ func (s *UintSetDesc) Remove(value uint) bool {
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -251,7 +256,6 @@ func (s *UintSetDesc) Remove(value uint) bool {
 			}
 			nodeToRemove.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/skipset.tpl b/skipset.tpl
index 0d1f59c..0c0425c 100644
--- a/skipset.tpl
+++ b/skipset.tpl
@@ -153,9 +153,11 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Add(value {{.Ty
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible: once it is, another process can remove it,
+		// and the length would drop below zero if that process is faster than this one.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
@@ -217,6 +219,9 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Remove(value {{
 					return false
 				}
 				nodeToRemove.flags.SetTrue(marked)
+				// Uncount the value while its node is still linked: once it is unlinked, another process
+				// can add the value again, and it would be counted twice.
+				atomic.AddInt64(&s.length, -1)
 				isMarked = true
 			}
 			// Accomplish the physical deletion.
@@ -250,7 +255,6 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Remove(value {{
 			}
 			nodeToRemove.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
-- 
2.43.0


From bbb80470a0667330ae57272000bf40e3e257540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 2/2] fix: order NaN before other values in New and NewDesc

With < and == alone a NaN is neither before, after nor equal to any value: it
could be added again and again, was never found, and hid the values behind it
from Contains, Remove and RangeFrom. Order it as NewFloat64 does.
---
 gen.go             |  8 ++++----
 gen_ordered.go     | 16 ++++++++--------
 gen_ordereddesc.go | 16 ++++++++--------
 skipset.go         |  4 ++++
 util.go            |  5 +++++
 5 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/gen.go b/gen.go
index 51941e4..f77736a 100644
--- a/gen.go
+++ b/gen.go
@@ -68,10 +68,10 @@ func main() {
 		StructSuffix:    "",
 		Funcs: template.FuncMap{
 			"Less": func(i, j string) string {
-				return fmt.Sprintf("(%s < %s)", i, j)
+				return fmt.Sprintf("(%s < %s || (isNaN(%s) && !isNaN(%s)))", i, j, i, j)
 			},
 			"Equal": func(i, j string) string {
-				return fmt.Sprintf("%s == %s", i, j)
+				return fmt.Sprintf("(%s == %s || (isNaN(%s) && isNaN(%s)))", i, j, i, j)
 			},
 		},
 	}
@@ -81,10 +81,10 @@ func main() {
 	base.Path = "gen_ordereddesc.go"
 	base.Funcs = template.FuncMap{
 		"Less": func(i, j string) string {
-			return fmt.Sprintf("(%s > %s)", i, j)
+			return fmt.Sprintf("(%s > %s || (isNaN(%s) && !isNaN(%s)))", i, j, i, j)
 		},
 		"Equal": func(i, j string) string {
-			return fmt.Sprintf("%s == %s", i, j)
+			return fmt.Sprintf("(%s == %s || (isNaN(%s) && isNaN(%s)))", i, j, i, j)
 		},
 	}
 	generate(base)
diff --git a/gen_ordered.go b/gen_ordered.go
index 648b223..a5bd7cd 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -57,7 +57,7 @@ func (s *OrderedSet[T]) findNodeRemove(value T, preds *[maxLevel]*orderednode[T]
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.value < value) {
+		for succ != nil && (succ.value < value || (isNaN(succ.value) && !isNaN(value))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -65,7 +65,7 @@ func (s *OrderedSet[T]) findNodeRemove(value T, preds *[maxLevel]*orderednode[T]
 		succs[i] = succ
 
 		// Check if the value already in the skip list.
-		if lFound == -1 && succ != nil && succ.value == value {
+		if lFound == -1 && succ != nil && (succ.value == value || (isNaN(succ.value) && isNaN(value))) {
 			lFound = i
 		}
 	}
@@ -78,7 +78,7 @@ func (s *OrderedSet[T]) findNodeAdd(value T, preds *[maxLevel]*orderednode[T], s
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.value < value) {
+		for succ != nil && (succ.value < value || (isNaN(succ.value) && !isNaN(value))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -86,7 +86,7 @@ func (s *OrderedSet[T]) findNodeAdd(value T, preds *[maxLevel]*orderednode[T], s
 		succs[i] = succ
 
 		// Check if the value already in the skip list.
-		if succ != nil && succ.value == value {
+		if succ != nil && (succ.value == value || (isNaN(succ.value) && isNaN(value))) {
 			return i
 		}
 	}
@@ -184,13 +184,13 @@ func (s *OrderedSet[T]) Contains(value T) bool {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.value < value) {
+		for nex != nil && (nex.value < value || (isNaN(nex.value) && !isNaN(value))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the value already in the skip list.
-		if nex != nil && nex.value == value {
+		if nex != nil && (nex.value == value || (isNaN(nex.value) && isNaN(value))) {
 			return nex.flags.MGet(fullyLinked|marked, fullyLinked)
 		}
 	}
@@ -287,12 +287,12 @@ func (s *OrderedSet[T]) RangeFrom(start T, f func(value T) bool) {
 	)
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex = x.atomicLoadNext(i)
-		for nex != nil && (nex.value < start) {
+		for nex != nil && (nex.value < start || (isNaN(nex.value) && !isNaN(start))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 		// Check if the value already in the skip list.
-		if nex != nil && nex.value == start {
+		if nex != nil && (nex.value == start || (isNaN(nex.value) && isNaN(start))) {
 			break
 		}
 	}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 5de261b..255e669 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -57,7 +57,7 @@ func (s *OrderedSetDesc[T]) findNodeRemove(value T, preds *[maxLevel]*orderednod
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.value > value) {
+		for succ != nil && (succ.value > value || (isNaN(succ.value) && !isNaN(value))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -65,7 +65,7 @@ func (s *OrderedSetDesc[T]) findNodeRemove(value T, preds *[maxLevel]*orderednod
 		succs[i] = succ
 
 		// Check if the value already in the skip list.
-		if lFound == -1 && succ != nil && succ.value == value {
+		if lFound == -1 && succ != nil && (succ.value == value || (isNaN(succ.value) && isNaN(value))) {
 			lFound = i
 		}
 	}
@@ -78,7 +78,7 @@ func (s *OrderedSetDesc[T]) findNodeAdd(value T, preds *[maxLevel]*orderednodeDe
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.value > value) {
+		for succ != nil && (succ.value > value || (isNaN(succ.value) && !isNaN(value))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -86,7 +86,7 @@ func (s *OrderedSetDesc[T]) findNodeAdd(value T, preds *[maxLevel]*orderednodeDe
 		succs[i] = succ
 
 		// Check if the value already in the skip list.
-		if succ != nil && succ.value == value {
+		if succ != nil && (succ.value == value || (isNaN(succ.value) && isNaN(value))) {
 			return i
 		}
 	}
@@ -184,13 +184,13 @@ func (s *OrderedSetDesc[T]) Contains(value T) bool {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.value > value) {
+		for nex != nil && (nex.value > value || (isNaN(nex.value) && !isNaN(value))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the value already in the skip list.
-		if nex != nil && nex.value == value {
+		if nex != nil && (nex.value == value || (isNaN(nex.value) && isNaN(value))) {
 			return nex.flags.MGet(fullyLinked|marked, fullyLinked)
 		}
 	}
@@ -287,12 +287,12 @@ func (s *OrderedSetDesc[T]) RangeFrom(start T, f func(value T) bool) {
 	)
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex = x.atomicLoadNext(i)
-		for nex != nil && (nex.value > start) {
+		for nex != nil && (nex.value > start || (isNaN(nex.value) && !isNaN(start))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 		// Check if the value already in the skip list.
-		if nex != nil && nex.value == start {
+		if nex != nil && (nex.value == start || (isNaN(nex.value) && isNaN(start))) {
 			break
 		}
 	}
diff --git a/skipset.go b/skipset.go
index 32a614d..39d170a 100644
--- a/skipset.go
+++ b/skipset.go
@@ -8,6 +8,8 @@ package skipset
 import "math"
 
 // New returns an empty skip set in ascending order.
+//
+// For float types, all NaNs are the same value, and it is ordered before any other value.
 func New[T ordered]() *OrderedSet[T] {
 	var t T
 	h := newOrderedNode(t, maxLevel)
@@ -19,6 +21,8 @@ func New[T ordered]() *OrderedSet[T] {
 }
 
 // NewDesc returns an empty skip set in descending order.
+//
+// For float types, all NaNs are the same value, and it is ordered before any other value.
 func NewDesc[T ordered]() *OrderedSetDesc[T] {
 	var t T
 	h := newOrderedNodeDesc(t, maxLevel)
diff --git a/util.go b/util.go
index 454b589..bc8c3f3 100644
--- a/util.go
+++ b/util.go
@@ -29,3 +29,8 @@ type ordered interface {
 		~float32 | ~float64 | // float
 		~string
 }
+
+// isNaN reports whether x is a NaN. It is always false if T is not a float type.
+func isNaN[T ordered](x T) bool {
+	return x != x
+}
-- 
2.43.0

