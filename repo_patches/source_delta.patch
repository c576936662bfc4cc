From f6554155f6f201312b8a64b6ef12b8d0fdb70c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 01/27] fix: initialise bound flags of new datatypes and check
 the allocation

Type_struct left o_lb/o_ub (and pairs[0] of an empty type) uninitialised, so
extent and bounds of a derived type depended on stale heap contents.
---
 type.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..89e91bb 100644
--- a/type.c
+++ b/type.c
@@ -311,6 +311,19 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp = malloc(sizeof(Typestruct) +
                ((simpletype_count-1) * sizeof(typepair)));
 
+  if (!temp)
+  {
+    fprintf(stderr, "Type_struct: failed to allocate datatype\n");
+    abort();
+  }
+
+  //no bound is overridden and the type is not a MPI_LB/MPI_UB marker
+  // until shown otherwise below
+  temp->o_lb = 0;
+  temp->o_ub = 0;
+  temp->pairs[0].disp = 0;
+  temp->pairs[0].type = SIMPLE_BYTE;
+
   temp->count = simpletype_count;
 
   i = 0;         //old type's index
-- 
2.43.0


From 0edaefeffb203a24e47926cfb8d67c3699163bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 02/27] fix: allocate and copy the whole typemap in Type_dup,
 define MPI_Type_dup

Type_dup allocated sizeof(pointer) bytes (heap overflow) and did not copy the
count; MPI_Type_dup is declared in mpi.h and documented but was not defined.
---
 type.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 89e91bb..46f5955 100644
--- a/type.c
+++ b/type.c
@@ -682,7 +682,15 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) +
+                    ((oldtype->count-1) * sizeof(typepair)));
+  if (!*newtype)
+  {
+    fprintf(stderr, "Type_dup: failed to allocate datatype\n");
+    abort();
+  }
+  (*newtype)->pairs[0] = oldtype->pairs[0];
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -697,6 +705,22 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )(int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype *newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+
+  return Type_dup(old_ptr, new_ptr);
+}
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From c61dcf63a8f0ac8525448a76b927255d7b35aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 03/27] fix: honour STATUSES_IGNORE, null requests and result
 indices in array tests/waits

Waitall/Testall/Testsome/Waitsome wrote through &MPI_STATUSES_IGNORE[i];
Testall freed completed requests although others were pending; Testany and
Testsome never set the index outputs and reported null requests as completed;
Waitsome tested the pointer outcount instead of its value.
---
 req.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/req.c b/req.c
index 6049663..9ac13f6 100644
--- a/req.c
+++ b/req.c
@@ -127,15 +127,31 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request none=MPI_REQUEST_NULL;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active++;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  *index=MPI_UNDEFINED;
+
+  /* no active requests: flag is true and the status is empty */
+
+  if (!active)
+    return(MPI_Test(&none,flag,status));
+
   /* none are completed */
 
   *flag=0;
@@ -160,17 +176,27 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 {
   int i;
   int iflag;
+  Req *req;
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* nothing may be completed unless everything can be */
+
+  for (i=0; i<count; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
 
-      if (!iflag)
+      req=mpi_handle_to_ptr(array_of_requests[i]);
+      if (!req->complete)
         *flag=0;
   }
 
+  for (i=0; i<count && *flag; i++)
+      MPI_Test(&array_of_requests[i],&iflag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[i]);
+
   return(MPI_SUCCESS);
 }
 
@@ -198,7 +224,9 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[i]);
 
       if (!flag)
         {
@@ -228,17 +256,30 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active++;
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
-      
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);
+
       if (flag)
+        {
+          array_of_indices[*outcount]=i;
 	  (*outcount)++;
+        }
   }
 
+  if (!active)
+    *outcount=MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -262,7 +303,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (*outcount==0)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 25f23b0dc36ff2fb1096ff2514beb63b8ec9a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 04/27] fix: return 1-based indices from the Fortran any/some
 completion calls

---
 req.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/req.c b/req.c
index 9ac13f6..7e59cba 100644
--- a/req.c
+++ b/req.c
@@ -85,6 +85,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                     /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -120,6 +122,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                     /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -246,8 +250,12 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;          /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -292,8 +300,12 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;          /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 0e45edff59321d227f0eabb9fe77f6dd8c10d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 05/27] fix: give MPI_SIGNED_CHAR, MPI_WCHAR and MPI_INTEGER16
 a definition

The first two had no entry in simpletypes[] (null dereference when used), the
last one no length (abort with "Invalid simple type").
---
 type.c       |  7 +++++++
 type.h       |  3 +++
 type_const.c | 11 ++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 46f5955..8b3a68e 100644
--- a/type.c
+++ b/type.c
@@ -6,6 +6,7 @@
 
 #include "type.h"
 #include "mpiP.h"
+#include <stddef.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <limits.h>
@@ -133,6 +134,12 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
 
     default:
       printf("Invalid simple type\n");
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..c053e04 100644
--- a/type_const.c
+++ b/type_const.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include "type.h"
 
   /* Here are the statically initialized structs for the predefined datatypes.
@@ -162,6 +163,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
 
+Typestruct TSschar  = {.count = 1,   .lb = 0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar  = {.count = 1,   .lb = 0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
   * the values for the MPI type constants e.g. MPI_INT
@@ -180,7 +189,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar
                        };
 
 
-- 
2.43.0


From aa1713be6b354426e12f64e061445617f1a77d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 06/27] fix: make MPI_Aint signed and compute bounds in full
 width

With an unsigned MPI_Aint the comparison against LONG_MIN meant that MPI_UB
was never applied and negative lower bounds were mishandled; calc_lb truncated
displacements to int.
---
 mpi.h  | 2 +-
 type.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
diff --git a/type.c b/type.c
index 8b3a68e..66aa1a9 100644
--- a/type.c
+++ b/type.c
@@ -154,7 +154,7 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
   for(i =0; i < type->count; i++)
@@ -175,7 +175,7 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
   for(i = 0; i < type->count; i++)
-- 
2.43.0


From 75b6df0804da715504671474ef66e22fbca5e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 07/27] fix: empty datatypes have lower and upper bound 0

---
 type.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/type.c b/type.c
index 66aa1a9..1f7efa0 100644
--- a/type.c
+++ b/type.c
@@ -157,6 +157,9 @@ long calc_lb(Datatype type)
   long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)      //no data: empty bounds
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -178,6 +181,9 @@ long calc_ub(Datatype type)
   long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)      //no data: empty bounds
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
-- 
2.43.0


From 92f8a3dcbe79bfcffc8fcabf18457b2e15d6c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 08/27] fix: keep byte offsets of buffers in MPI_Aint

Offsets beyond 2 GiB were truncated to int when copying data.
---
 collective.c | 10 +++++-----
 copy.c       |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..90601cc 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
-- 
2.43.0


From 68ba82ffc251e88ee5f8e6ebd0ce988622b09a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 09/27] fix: a zero-length block does not override the bounds
 of a struct type

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 1f7efa0..b596f38 100644
--- a/type.c
+++ b/type.c
@@ -310,11 +310,11 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       //However it may still have overriding bounds
       //Test for these and add its size to the typemap.
 
-      if (temp2->o_lb)
+      if (temp2->o_lb && blocklens[i] > 0)
         // this type's lb has been overridden.
         // ONLY an overriding lb can be the actual lb now.
         override_lower = 1;
-      if (temp2->o_ub)
+      if (temp2->o_ub && blocklens[i] > 0)
         //same as above, but ub
         override_upper = 1;
 
-- 
2.43.0


From 23dc79a2f8557aba2b1a2186953f0f1b80941ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 10/27] fix: a receive matching an earlier send uses the count
 and type of the send

Irecv read the send buffer with the count and type of the receive, so the
result depended on which side was posted first and over-receives were not
diagnosed when the send came first.
---
 recv.c | 2 +-
 send.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/recv.c b/recv.c
index 37aa2c4..e31b1a1 100644
--- a/recv.c
+++ b/recv.c
@@ -78,7 +78,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      copy_data2(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index b2a0475..b033d06 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->type = datatype;
+  sreq->count = count;
 
   if (dest==MPI_PROC_NULL)
     {
-- 
2.43.0


From 60646bf7d81d7448c1db3a310c26fd1c280c5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 11/27] fix: every completion and probe fills in the count of
 the status

MPI_Wait/MPI_Test/MPI_Probe left status->get_count untouched, so
MPI_Get_count after them returned garbage; receives from MPI_PROC_NULL
reported the requested count instead of 0.
---
 probe.c | 1 +
 recv.c  | 4 +---
 req.c   | 2 ++
 send.c  | 4 ++++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/probe.c b/probe.c
index 8b66042..f61e317 100644
--- a/probe.c
+++ b/probe.c
@@ -53,6 +53,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index e31b1a1..a98e58e 100644
--- a/recv.c
+++ b/recv.c
@@ -65,6 +65,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
+      rreq->count=0;
       rreq->source=MPI_PROC_NULL;
       rreq->tag=MPI_ANY_TAG;
 
@@ -134,9 +135,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 7e59cba..341177e 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->count;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index b033d06..0ff12b7 100644
--- a/send.c
+++ b/send.c
@@ -57,10 +57,14 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **) &sreq);
   sreq->type = datatype;
   sreq->count = count;
+  sreq->source = 0;
+  sreq->tag = tag;
 
   if (dest==MPI_PROC_NULL)
     {
       sreq->complete=1;
+      sreq->source=MPI_PROC_NULL;
+      sreq->tag=MPI_ANY_TAG;
       return(MPI_SUCCESS);
     }
   if (( match=AP_list_search_func(mycomm->recvlist,mpi_match_recv,&tag)))
-- 
2.43.0


From a9aa3196c786a1395b59a01d874bd25a45672d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 12/27] fix: probing MPI_PROC_NULL succeeds at once with an
 empty status

---
 probe.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/probe.c b/probe.c
index f61e317..9f2d609 100644
--- a/probe.c
+++ b/probe.c
@@ -35,9 +35,21 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE=MPI_PROC_NULL;
+	  status->MPI_TAG=MPI_ANY_TAG;
+	  status->get_count=0;
+	}
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
-      fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
+      fprintf(stderr,"MPI_Iprobe: bad source %d\n",source);
       abort();
     }
 
-- 
2.43.0


From 5f6537d57a2716c94c10934c45a1d431553133fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 13/27] fix: probe.c compiles with --enable-info

---
 probe.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probe.c b/probe.c
index 9f2d609..b0b6161 100644
--- a/probe.c
+++ b/probe.c
@@ -30,8 +30,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 
 #ifdef INFO
   fflush(stdout);
-  fprintf(stderr,"MPI_IProbev: Comm=%d  tag=%d  count=%d type=%d\n",
-         mycomm->num,tag,count,datatype);
+  fprintf(stderr,"MPI_Iprobe: Comm=%d  tag=%d\n",mycomm->num,tag);
 #endif
 
 
-- 
2.43.0


From 4cb3365d5546dcd4038d745f2174073c118e4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 14/27] fix: support MPI_IN_PLACE in all data-moving
 collectives, C and Fortran

Reduce, Scan, Reduce_scatter and the Alltoall family copied from address -1;
the Fortran wrappers of these and of Allreduce copied from the address of the
MPI_IN_PLACE variable. MPI_Reduce accepts MPI_ROOT like its siblings.
---
 collective.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..ef57004 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -311,6 +311,12 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
 	       MPI_Datatype datatype, MPI_Op op, int root, MPI_Comm comm)
 
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
+  if (root==MPI_ROOT)
+    return(MPI_SUCCESS);
+
   if (root!=0)
     {
       fprintf(stderr,"MPI_Reduce: bad root = %d\n",root);
@@ -331,7 +337,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +370,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +378,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +394,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +404,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +420,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +431,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +450,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +469,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +498,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -495,6 +513,8 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
 
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
-- 
2.43.0


From fa4d2417d293abd3146c44e7319c6250aaccf50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 15/27] fix: MPI_Intercomm_merge returns a communicator

The output argument was never written. Adds the documented Fortran binding.
---
 ic_merge.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..b2f9d48 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -4,12 +4,18 @@
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
  * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * applications. In the case of a serial program, the merged communicator is
+ * simply another one-process communicator.
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
-  return(MPI_SUCCESS);
+  return MPI_Comm_dup(intercomm, newintracomm);
+}
+
+int FC_FUNC( mpi_intercomm_merge, MPI_INTERCOMM_MERGE )
+     (int *intercomm, int *high, int *newintracomm, int *ierror)
+{
+  *ierror=MPI_Intercomm_merge(*intercomm, *high, newintracomm);
+  return MPI_SUCCESS;
 }
-- 
2.43.0


From 5070ea7ec4d60bcde4b53fbb64d0e22b43a15d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 16/27] fix: provide the documented Fortran binding
 mpi_errhandler_set

---
 error.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/error.c b/error.c
index d26cfd1..c1b58fc 100644
--- a/error.c
+++ b/error.c
@@ -7,6 +7,13 @@
  * doing anything
  */
 
+int FC_FUNC( mpi_errhandler_set, MPI_ERRHANDLER_SET )
+     (int *comm, int *handle, int *ierror)
+{
+  *ierror=MPI_Errhandler_set(*comm, *handle);
+  return MPI_SUCCESS;
+}
+
  int MPI_Errhandler_set(MPI_Comm comm, MPI_Errhandler handle)
  {
    return(MPI_SUCCESS);
-- 
2.43.0


From 0d1489f35c0e99727d56e7462190114d61268bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 17/27] fix: declare MPI_Init_thread and MPI_Info_free in mpi.h

---
 mpi.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpi.h b/mpi.h
index b66e48f..33fdb83 100644
--- a/mpi.h
+++ b/mpi.h
@@ -341,6 +341,8 @@ extern MPI_Group MPI_Group_f2c(MPI_Fint group);
 extern MPI_Fint MPI_Group_c2f(MPI_Group group);
 
 extern int MPI_Init(int *argc, char **argv[]) ;
+extern int MPI_Init_thread(int *argc, char **argv[], int required,
+                           int *provided);
 extern int MPI_Finalize(void);
 extern int MPI_Abort(MPI_Comm comm, int errorcode);
 extern int MPI_Error_string(int errorcode, char *string, int *resultlen);
@@ -348,6 +350,7 @@ extern int MPI_Get_processor_name(char *name, int *resultlen);
 
 extern int MPI_Info_create(MPI_Info *info);
 extern int MPI_Info_set(MPI_Info info, char *key, char *value);
+extern int MPI_Info_free(MPI_Info *info);
 
 extern int MPI_Initialized(int *flag);
 extern int MPI_Pack( void *inbuf, int incount, MPI_Datatype datatype,
-- 
2.43.0


From ba48f103592e630774352a8562dcdb9a297c9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 18/27] fix: MPI_Type_free sets the handle to MPI_DATATYPE_NULL

---
 type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type.c b/type.c
index b596f38..85062b3 100644
--- a/type.c
+++ b/type.c
@@ -868,6 +868,7 @@ int MPI_Type_free(MPI_Datatype * datatype)
   type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From f714521db5510fceba10e78d9a8967d7221b259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 19/27] fix: the block length of the Fortran hvector calls is a
 default INTEGER

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 85062b3..12787e4 100644
--- a/type.c
+++ b/type.c
@@ -510,7 +510,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -528,7 +528,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From 8961c6c2beb65d033a2a6021fd7838ff95e023a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 20/27] fix: MPI_Pack_size does not print to stdout

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index e7efba2..82719ed 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 21af2566a21752fafcfd3701e702ceae9e9f52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 21/27] fix: Fortran mpi_pack_size returns a default INTEGER

It stored an MPI_Aint through the INTEGER argument, overwriting the four bytes
following it.
---
 pack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 82719ed..65eba6a 100644
--- a/pack.c
+++ b/pack.c
@@ -74,9 +74,12 @@ int Pack_size(int incount, Datatype datatype,
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint csize;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &csize);
+  *size = csize;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 5296d8b4c0072f1eea51c8181603f4e3e6b3e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 22/27] fix: MPI_Request_free of a pending request defers the
 release

The handle was reused while the request was still queued for matching, so a
later match completed (and wrote through) an unrelated object.
---
 mpiP.h |  2 ++
 recv.c |  4 ++++
 req.c  | 10 +++++++++-
 send.c |  4 ++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/mpiP.h b/mpiP.h
index b03794f..e642e4a 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -98,6 +98,8 @@ typedef struct
   int source;
   int tag;
   int complete;
+  int detached;              /* freed by the user before completion */
+  int handle;                /* handle of this Req itself */
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
 } Req;
diff --git a/recv.c b/recv.c
index a98e58e..19a41fe 100644
--- a/recv.c
+++ b/recv.c
@@ -60,6 +60,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
+  rreq->detached = 0;
+  rreq->handle = *request;
   rreq->type = datatype;
   rreq->count = count;
   if (source==MPI_PROC_NULL)
@@ -85,6 +87,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
       sreq->complete=1;
+      if (sreq->detached)
+        mpi_free_handle(sreq->handle);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index 341177e..cb2806e 100644
--- a/req.c
+++ b/req.c
@@ -339,7 +339,15 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *rptr=mpi_handle_to_ptr(*req);
+
+  /* a pending request is still queued: it is released on completion */
+
+  if (rptr && !rptr->complete)
+    rptr->detached=1;
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index 0ff12b7..d00ed69 100644
--- a/send.c
+++ b/send.c
@@ -55,6 +55,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
+  sreq->detached = 0;
+  sreq->handle = *request;
   sreq->type = datatype;
   sreq->count = count;
   sreq->source = 0;
@@ -76,6 +78,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      if (rreq->detached)
+        mpi_free_handle(rreq->handle);
 
       sreq->complete=1;
 
-- 
2.43.0


From e81bcc8af0f48c524bed5271a279e732635ef241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 23/27] fix: upper-case Fortran name of mpi_get_address

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 12787e4..72313e2 100644
--- a/type.c
+++ b/type.c
@@ -814,7 +814,7 @@ int FGet_address(void * loc, long * address)
     return MPI_SUCCESS;
 }
 
-int FC_FUNC( mpi_get_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
+int FC_FUNC( mpi_get_address, MPI_GET_ADDRESS )(void * loc, long * address, int * ierr)
 {
   *ierr = FGet_address(loc, address);
   return MPI_SUCCESS;
-- 
2.43.0


From ed4761a368c1e2e0373dac4015f42bd03d18eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 24/27] fix: declare MPI_Get_address and MPI_Address in mpi.h

---
 mpi.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpi.h b/mpi.h
index 33fdb83..0e24317 100644
--- a/mpi.h
+++ b/mpi.h
@@ -439,6 +439,9 @@ extern int MPI_Type_free(MPI_Datatype * datatype);
 extern int MPI_Type_lb(MPI_Datatype datatype, MPI_Aint * lb);
 extern int MPI_Type_ub(MPI_Datatype datatype, MPI_Aint * ub);
 
+extern int MPI_Get_address(void *loc, MPI_Aint *address);
+extern int MPI_Address(void *loc, MPI_Aint *address);
+
 extern double MPI_Wtime(void);
 
 #endif
-- 
2.43.0


From 2d0b75fe09f58a0322f430f502b72b8eabdc8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 25/27] fix: declare print_list and Pprint_typemap before use

---
 mpiP.h | 3 +++
 type.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mpiP.h b/mpiP.h
index e642e4a..57c8b43 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -111,6 +111,9 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
+/* debug printing (INFO) */
+extern int print_list(pList list, char *msg, int num);
+
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
diff --git a/type.h b/type.h
index 069b9a2..0075210 100644
--- a/type.h
+++ b/type.h
@@ -88,6 +88,9 @@ int Type_extent(Datatype datatype, MPI_Aint * extent);
 
 //testing only
 int print_typemap(MPI_Datatype in);
+#ifdef TEST_INTERNAL
+int Pprint_typemap(Datatype type);
+#endif
 
 
 /*
-- 
2.43.0


From f250cc1c3935cf1a73858d69b90269eacf0dd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 26/27] fix: type constructors take their temporary arrays from
 the heap, not the stack

---
 type.c | 78 +++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/type.c b/type.c
index 72313e2..c7530ac 100644
--- a/type.c
+++ b/type.c
@@ -263,6 +263,22 @@ int Copy_type(typepair *source, typepair *dest)
 
 }
 
+/*******************************************************/
+/* temp_array: room for count temporary entries of the given size.  Counts can
+ * be too large for the stack.
+ */
+static void *temp_array(int count, size_t size)
+{
+  void *p = malloc(count > 0 ? count * size : size);
+
+  if (!p)
+  {
+    fprintf(stderr, "MPI_Type: failed to allocate temporary array\n");
+    abort();
+  }
+  return p;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -429,8 +445,8 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype * oldtypes_ptr = temp_array(count, sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -440,8 +456,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+    free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -452,10 +470,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = temp_array(count, sizeof(int));
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -467,7 +485,11 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -492,10 +514,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = temp_array(count, sizeof(int));
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -506,7 +528,11 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -588,15 +614,17 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype * oldtypes = temp_array(count, sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -624,9 +652,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint * bdisps = temp_array(count, sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -634,7 +662,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -661,13 +691,15 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int * blocklens = temp_array(count, sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From e68868aa149c0c34850e7d0bef9c749207d6c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 27/27] fix: write the messages of failing calls to standard
 error

They went to standard output, where abort() loses them unless it is a
terminal.
---
 cart.c | 6 +++---
 copy.c | 4 ++--
 pack.c | 4 ++--
 type.c | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..37a91d2 100644
--- a/cart.c
+++ b/cart.c
@@ -24,7 +24,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
-      printf("MPI_Cart_create: Greater dimension than no. of procs\n");
+      fprintf(stderr,"MPI_Cart_create: Greater dimension than no. of procs\n");
       abort();
     }
 
@@ -90,7 +90,7 @@ int MPI_Cart_coords(MPI_Comm comm, int rank, int maxdims, int *coords)
 
   if (rank != 0)
   {
-    printf("MPI_Cart_coords: Rank != 0\n");
+    fprintf(stderr,"MPI_Cart_coords: Rank != 0\n");
     abort();
   }
 
@@ -122,7 +122,7 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
 
   if (nnodes > 1)
   {
-    printf("MPI_Dims_create: More nodes than procs specified.\n");
+    fprintf(stderr,"MPI_Dims_create: More nodes than procs specified.\n");
     abort();
   }
 
diff --git a/copy.c b/copy.c
index 90601cc..f484a42 100644
--- a/copy.c
+++ b/copy.c
@@ -60,7 +60,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
   if (src_type->count * src_count < dest_type->count * dest_count)
   {
-    printf("copy_data: Trying to over-receive\n");
+    fprintf(stderr,"copy_data: Trying to over-receive\n");
     exit(1);
   }
 
@@ -74,7 +74,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     if ( src_type->pairs[i % src_type->count].type !=
          dest_type->pairs[i % dest_type->count].type)
     {
-      printf("copy_data: Types don't match.\n");
+      fprintf(stderr,"copy_data: Types don't match.\n");
       exit(1);
     }
 #endif
diff --git a/pack.c b/pack.c
index 65eba6a..46e20bd 100644
--- a/pack.c
+++ b/pack.c
@@ -48,7 +48,7 @@ int Pack(void *inbuf, int incount, Datatype type,
     {
       if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
       {
-        printf("MPI_Pack: data exceeds buffer size\n");
+        fprintf(stderr,"MPI_Pack: data exceeds buffer size\n");
         exit(1);
       }
       memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),
@@ -139,7 +139,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
     {
       if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
       {
-        printf("MPI_Unpack: Data exceeds buffer size\n");
+        fprintf(stderr,"MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
       }
       memcpy(outbuf+type->pairs[j].disp + (extent*i), ((char*) inbuf)+(*position) ,
diff --git a/type.c b/type.c
index c7530ac..337c79c 100644
--- a/type.c
+++ b/type.c
@@ -142,7 +142,7 @@ int Simpletype_length(Simpletype t)
       return sizeof(wchar_t); break;
 
     default:
-      printf("Invalid simple type\n");
+      fprintf(stderr,"Invalid simple type\n");
       exit(1);
   }
 }
-- 
2.43.0

