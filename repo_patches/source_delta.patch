From 8177a8243aa4392a8b6f89a1d1002c058eb08c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 1/4] fix: advance to the next item in list_insert_sorted()

---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From 42963316a3fd795c9f4454b76c36446639d8c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 2/4] fix: initialize the iterator stack of an empty tree

---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From 4748165c1803a6dce0d851561e13eeba1d473bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 3/4] fix: honour the sub-second part of the timeout in
 async_queue_pop_timeout()

---
 asyncqueue.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..88a4072 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -150,7 +150,13 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 			gettimeofday(&now, NULL);
 
 			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
+			val.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;
+
+			if(val.tv_nsec >= 1000000000L)
+			{
+				++val.tv_sec;
+				val.tv_nsec -= 1000000000L;
+			}
 
 			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
 		}
-- 
2.43.0


From e6fcb24f0934fc521e78ac3a612436f01655339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 4/4] fix: don't access a removed bucket after it was returned
 to the pool

---
 hashtable.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hashtable.c b/hashtable.c
index 7887f53..2c545ee 100644
--- a/hashtable.c
+++ b/hashtable.c
@@ -405,9 +405,11 @@ hashtable_remove(HashTable *table, const void *key)
 
 				removed = true;
 			}
-
-			prev = iter;
-			iter = iter->next;
+			else
+			{
+				prev = iter;
+				iter = iter->next;
+			}
 		}
 	}
 }
-- 
2.43.0

