From 27e1a8d71b615b8e84c39ef3f1da706e2b474498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 01/23] fix: give every predefined datatype a table entry and a
 size

MPI_SIGNED_CHAR and MPI_WCHAR had no entry in simpletypes[] (null
dereference); MPI_INTEGER16, MPI_LB and MPI_UB had no size, so that any
query on them terminated the program.
---
 type.c       | 9 ++++++++-
 type_const.c | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 4e7d661..e38a106 100644
--- a/type.c
+++ b/type.c
@@ -115,6 +115,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
@@ -134,6 +136,10 @@ int Simpletype_length(Simpletype t)
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
 
+    case SIMPLE_LOWER:
+    case SIMPLE_UPPER:
+      return 0; break;   /* bound markers occupy no space */
+
     default:
       printf("Invalid simple type\n");
       exit(1);
@@ -192,7 +198,8 @@ int Type_extent(Datatype datatype, MPI_Aint * extent)
   {
     int epsilon = calc_padding(datatype);
     //current epsilon value is based off of largest datatype size
-    int mod = (datatype->ub - datatype->lb) % epsilon;
+    // (nothing to pad to if there are no elements of nonzero size)
+    int mod = epsilon > 0 ? (datatype->ub - datatype->lb) % epsilon : 0;
     if (mod == 0)
       epsilon = 0;
     else
diff --git a/type_const.c b/type_const.c
index 6afa7f0..3919333 100644
--- a/type_const.c
+++ b/type_const.c
@@ -1,4 +1,5 @@
 #include "type.h"
+#include <stddef.h>
 
   /* Here are the statically initialized structs for the predefined datatypes.
    */
@@ -157,6 +158,11 @@ Typestruct TSulonglong = {.count = 1,   .lb = 0,   .ub=sizeof(unsigned long long
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_ULONGLONG }};
 
+Typestruct TSwchar = {.count = 1,   .lb = 0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype)
+			     (sizeof(wchar_t)==sizeof(int) ? SIMPLE_INT : SIMPLE_SHORT) }};
+
 Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
@@ -180,7 +186,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+		       &TSoffset  , &TSchar      , &TSwchar                       //44
                        };
 
 
-- 
2.43.0


From db94cfe2e4dacba7dec13e4cbdf5259153092783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 02/23] fix: compare datatype bound markers as signed values in
 Type_struct

new_lb/new_ub were unsigned, so LONG_MIN was the largest value: MPI_UB
was never applied and a negative MPI_LB lost against positive ones.
---
 type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/type.c b/type.c
index e38a106..39c754b 100644
--- a/type.c
+++ b/type.c
@@ -271,7 +271,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   int newcount;
   char override_lower = 0, //whether to override
        override_upper = 0;
-  MPI_Aint  new_lb = LONG_MAX,
+  long new_lb = LONG_MAX,    //signed: bounds can be negative
       new_ub = LONG_MIN;
   int simpletype_count = 0; //total additional blocks for malloc
   MPI_Aint tmp_offset;      //for contiguous blocks of type
@@ -287,14 +287,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     if (temp2->pairs[0].type == SIMPLE_LOWER)
     {
       //found MPI_LB.  This is a candidate for the actual lb
-      if (new_lb > displacements[i])
+      if (new_lb > (long) displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
     else if (temp2->pairs[0].type == SIMPLE_UPPER)
     {
       //same as above, but ub
-      if (new_ub < displacements[i])
+      if (new_ub < (long) displacements[i])
 	new_ub = displacements[i];
       override_upper = 1;
     }
@@ -342,9 +342,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
         tmp_offset = j * extent;
 
-        if (temp2->o_lb && temp2->lb+displacements[i]+tmp_offset < new_lb)
+        if (temp2->o_lb && (long) (temp2->lb+displacements[i]+tmp_offset) < new_lb)
           new_lb = temp2->lb+displacements[i]+tmp_offset;
-        if (temp2->o_ub && temp2->ub+displacements[i]+tmp_offset > new_ub)
+        if (temp2->o_ub && (long) (temp2->ub+displacements[i]+tmp_offset) > new_ub)
         {
           new_ub = temp2->ub+displacements[i]+tmp_offset;
         }
-- 
2.43.0


From d79720eb96a442a865117db29bc9e3edbb75bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 03/23] fix: initialise the bound override flags of new
 datatypes

Type_struct left o_lb/o_ub as malloc garbage when there was no marker,
which changes the extent.
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 39c754b..0a80831 100644
--- a/type.c
+++ b/type.c
@@ -367,6 +367,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp->committed = 0;
 
   //assign upper and lower bounds here
+  temp->o_lb = 0;
+  temp->o_ub = 0;
   if (override_lower)
   {
     //use lowest previous overridden lower bound
-- 
2.43.0


From 0e997c1bdcef2c02575f49cd43d1747c41c36a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 04/23] fix: do not truncate displacements when computing
 datatype bounds

calc_lb kept the minimum in an int, and both bounds started from int
limits although displacements are long (absolute addresses are common).
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 0a80831..47879f4 100644
--- a/type.c
+++ b/type.c
@@ -153,7 +153,7 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
   for(i =0; i < type->count; i++)
@@ -174,7 +174,7 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
   for(i = 0; i < type->count; i++)
-- 
2.43.0


From 8d5755923a5aadde0ffbaf4f9f11bb71b166d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 05/23] fix: do not truncate element offsets to int when
 copying

Datatypes with absolute displacements (MPI_BOTTOM) or data beyond 2 GB
were copied from and to wrong addresses.
---
 copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy.c b/copy.c
index f231600..0a5df68 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  long soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
-- 
2.43.0


From 1f1b73210b2c7db3b05f731310e351dddac64f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 06/23] fix: do not truncate block offsets to int in the
 v-collectives

---
 collective.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
-- 
2.43.0


From 59d727b7b624f82639dbbeca43ac60d621674d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 07/23] fix: give empty datatypes zero bounds and ignore empty
 blocks

A datatype without elements got INT_MAX/INT_MIN bounds, its missing first
type map entry was inspected, and a zero-length block of a marker or of a
type with markers changed the bounds.
---
 type.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/type.c b/type.c
index 47879f4..bbd92b6 100644
--- a/type.c
+++ b/type.c
@@ -163,7 +163,7 @@ long calc_lb(Datatype type)
                 ? tp->disp
                 : min_disp;
   }
-  return min_disp;
+  return type->count > 0 ? min_disp : 0;
 }
 
 /*
@@ -185,7 +185,7 @@ long calc_ub(Datatype type)
                 : max_disp;
   }
 
-  return max_disp;
+  return type->count > 0 ? max_disp : 0;
 }
 
 
@@ -284,14 +284,16 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (blocklens[i] == 0)
+      continue;               //an empty block contributes nothing
+    if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_LOWER)
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > (long) displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_UPPER)
     {
       //same as above, but ub
       if (new_ub < (long) displacements[i])
@@ -331,8 +333,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(temp2->count > 0 &&
+          (temp2->pairs[0].type == SIMPLE_LOWER ||
+           temp2->pairs[0].type == SIMPLE_UPPER)))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
-- 
2.43.0


From ee52f147b154e17a48d0d130a0b02afc1a289309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 08/23] fix: MPI_Type_free sets the caller's handle to
 MPI_DATATYPE_NULL

---
 type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type.c b/type.c
index bbd92b6..09b6221 100644
--- a/type.c
+++ b/type.c
@@ -830,6 +830,7 @@ int MPI_Type_free(MPI_Datatype * datatype)
   type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From e618b8fe27a34e0de3ccc65f3ec6d1bb62435b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 09/23] fix: MPI_Pack_size does not write to the program's
 output

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index e7efba2..82719ed 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 76fe358606d37e2c9d06d5362f66bf06bfbeb796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 10/23] fix: Fortran hvector block length is a default INTEGER

The wrappers read eight bytes through a pointer to a four byte INTEGER.
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 09b6221..1801737 100644
--- a/type.c
+++ b/type.c
@@ -496,7 +496,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -514,7 +514,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From 2c9123ef5391a772de2d00b070ce99cb597c2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 11/23] fix: MPI_Intercomm_merge sets its result

The new communicator was never stored, leaving the caller's variable
uninitialised.
---
 ic_merge.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..003fbc8 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -4,12 +4,15 @@
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
  * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * applications. In the case of a serial program, this is a duplicate of the
+ * one-process communicator.
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
+  if (intercomm==MPI_COMM_NULL)
+    *newintracomm = MPI_COMM_NULL;
+  else
+    MPI_Comm_dup(intercomm, newintracomm);
   return(MPI_SUCCESS);
 }
-- 
2.43.0


From 838d7ea86326836427366f0bd17d4c0871c0b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 12/23] fix: honour MPI_IN_PLACE in all reductions

MPI_Reduce, MPI_Reduce_scatter and MPI_Scan copied from the marker as if
it were a buffer, and the Fortran reduction wrappers did not translate the
Fortran MPI_IN_PLACE, so the receive buffer was overwritten.
---
 collective.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..f307c61 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +375,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return MPI_SUCCESS;
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +391,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +401,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
-- 
2.43.0


From 4b2e0f082fa9d50a26547bf19341ac90d815ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 13/23] fix: honour MPI_IN_PLACE in the all-to-all collectives

---
 collective.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/collective.c b/collective.c
index f307c61..5ada239 100644
--- a/collective.c
+++ b/collective.c
@@ -417,7 +417,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -428,6 +428,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -444,7 +447,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -463,6 +466,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -489,7 +495,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -505,6 +511,9 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
 
 {
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
 
-- 
2.43.0


From 6e8cb99b30a263e04e8c161bc0aaccec47b59560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 14/23] fix: accept MPI_STATUSES_IGNORE for more than one
 request

Waitall, Testall and Testsome wrote statuses through &NULL[i] from the
second request on.
---
 req.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/req.c b/req.c
index 6049663..2cb2306 100644
--- a/req.c
+++ b/req.c
@@ -165,7 +165,9 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count && flag; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&iflag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[i]);
 
       if (!iflag)
         *flag=0;
@@ -198,7 +200,9 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[i]);
 
       if (!flag)
         {
@@ -233,8 +237,10 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
   for (i=0; i<incount; i++)
   {
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
-      
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+               MPI_STATUS_IGNORE : &array_of_statuses[i]);
+
       if (flag)
 	  (*outcount)++;
   }
-- 
2.43.0


From 4f2608fb6ef67f9fba95198423ed5970c7046abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 15/23] fix: MPI_Testall leaves all requests alone unless all
 are complete

It completed and released a subset, losing their statuses.
---
 req.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index 2cb2306..70467ee 100644
--- a/req.c
+++ b/req.c
@@ -163,7 +163,16 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* unless all are complete, leave every request as it is */
+
+  for (i=0; i<count; i++)
+  {
+    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
+        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
+      *flag=0;
+  }
+
+  for (i=0; i<count && *flag; i++)
   {
       MPI_Test(&array_of_requests[i],&iflag,
                array_of_statuses==MPI_STATUSES_IGNORE ?
-- 
2.43.0


From 396b7a3d9ab54e4fe44dc9d13109a4a0dc59c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 16/23] fix: MPI_Testany and MPI_Waitany report which request
 completed

The index was never set, and a null request counted as the completed one
even when an active request was complete.
---
 req.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index 70467ee..b0b3a4e 100644
--- a/req.c
+++ b/req.c
@@ -85,6 +85,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                 /* Fortran arrays start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -120,6 +122,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                 /* Fortran arrays start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -127,15 +131,31 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  MPI_Request none=MPI_REQUEST_NULL;
+  int active=0;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  *index=MPI_UNDEFINED;
+
+  /* no active request at all: done, with an empty status */
+
+  if (!active)
+    return(MPI_Test(&none,flag,status));
+
   /* none are completed */
 
   *flag=0;
-- 
2.43.0


From 97d53cba38e5c82d8a01e663517dd11a10072daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 17/23] fix: MPI_Testsome and MPI_Waitsome report which
 requests completed

The index array was never filled, statuses were not compacted, null
requests counted as completed, and Waitsome never noticed a deadlock.
---
 req.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/req.c b/req.c
index b0b3a4e..57ddbc4 100644
--- a/req.c
+++ b/req.c
@@ -251,8 +251,12 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;      /* Fortran arrays start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -261,19 +265,27 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+          continue;
+
+      active=1;
       flag=0;
       MPI_Test(&array_of_requests[i],&flag,
                array_of_statuses==MPI_STATUSES_IGNORE ?
-               MPI_STATUS_IGNORE : &array_of_statuses[i]);
+               MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);
 
       if (flag)
-	  (*outcount)++;
+	  array_of_indices[(*outcount)++]=i;
   }
 
+  if (!active)
+      *outcount = MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -286,8 +298,12 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;      /* Fortran arrays start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -297,7 +313,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (!*outcount)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 80260e368dfee236f7a0daefecace0930f85ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 18/23] fix: MPI_Request_free keeps the request of a pending
 operation queued

The handle was released at once while the queue still pointed at it, so a
later request reused the same storage and messages were delivered through
the wrong request.  Release it when the operation completes instead.
---
 mpiP.h |  1 +
 recv.c |  2 ++
 req.c  | 12 +++++++++++-
 send.c |  3 ++-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index b03794f..5f95397 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -100,6 +100,7 @@ typedef struct
   int complete;
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  MPI_Request freed;         /* handle to free on completion, if any */
 } Req;
 
 
diff --git a/recv.c b/recv.c
index 37aa2c4..9af0886 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->freed = MPI_REQUEST_NULL;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -84,6 +85,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
       sreq->complete=1;
+      mpi_free_handle(sreq->freed);          /* if MPI_Request_free was called */
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index 57ddbc4..abc2619 100644
--- a/req.c
+++ b/req.c
@@ -335,7 +335,17 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *r;
+
+  r=mpi_handle_to_ptr(*req);
+
+  /* a pending operation still needs its Req: free it on completion */
+
+  if (r && !r->complete)
+    r->freed=*req;
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index b2a0475..6b84dbd 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->freed=MPI_REQUEST_NULL;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -73,6 +73,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
 
       sreq->complete=1;
+      mpi_free_handle(rreq->freed);     /* if MPI_Request_free was called */
 
 #ifdef DEBUG
       printf("Completion(send) value=%d tag=%d\n",
-- 
2.43.0


From a2f34ff9c1ce3c6cb64f9b67f0281d0a47b12dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 19/23] fix: deliver a message according to what was sent

A receive that found its message waiting read the sender's buffer with the
receiver's count and datatype: wrong data for a different layout, and a
read beyond the send buffer for a larger receive.  A posted receive larger
than the message terminated the program although that is valid.  Keep the
sender's count and datatype and copy what both sides describe.
---
 copy.c | 74 ++++++++++++++++++++++++++++++++++++++++++++++++++++++----
 mpiP.h |  2 ++
 recv.c |  2 +-
 send.c |  4 +++-
 type.h |  1 +
 5 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/copy.c b/copy.c
index 0a5df68..dd9cc68 100644
--- a/copy.c
+++ b/copy.c
@@ -39,13 +39,13 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
+static int Pcopy_elements(void *source, Datatype src_type,
+                          void *dest, Datatype dest_type, int n);
+
+
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
-  int i;
-  long soffset, doffset;
-  MPI_Aint src_extent, dest_extent;
-
   //commit checking here, since if any datatype is used in this function
   // it is considered "communication".  Should it be somewhere else?
 
@@ -64,10 +64,26 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     exit(1);
   }
 
+  return Pcopy_elements(source, src_type, dest, dest_type,
+                        dest_count * dest_type->count);
+}
+
+
+/*
+ * Copy the first n basic elements
+ */
+
+static int Pcopy_elements(void *source, Datatype src_type,
+                          void *dest, Datatype dest_type, int n)
+{
+  int i;
+  long soffset, doffset;
+  MPI_Aint src_extent, dest_extent;
+
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < n; i++)
   {
 
 #ifdef TYPE_CHECKING
@@ -88,5 +104,53 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 }
 
 
+/*
+ * Deliver a message: copy as many elements as both the sender and the
+ * receiver describe.  MPI_PACKED and MPI_BYTE match the bytes of any type.
+ *
+ * Returns the number of basic elements received.
+ */
 
+#define IS_BYTES(type)  ((type)==MPI_PACKED || (type)==MPI_BYTE)
 
+int copy_message(void *source, int src_count, MPI_Datatype src_type,
+                 void *dest, int dest_count, MPI_Datatype dest_type)
+{
+  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
+  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
+  int size, n;
+  int position = 0;
+
+  if (!(src_ptr->committed && dest_ptr->committed))
+  {
+    fprintf(stderr, "Type not committed\n");
+    exit(-1);
+  }
+
+  if (IS_BYTES(src_type) && !IS_BYTES(dest_type))
+  {
+    Type_size(dest_ptr, &size);
+    if (size > 0 && src_count / size < dest_count)
+      dest_count = src_count / size;
+
+    Unpack(source, src_count, &position, dest, dest_count, dest_ptr, NULL);
+    return dest_count * dest_ptr->count;
+  }
+
+  if (IS_BYTES(dest_type) && !IS_BYTES(src_type))
+  {
+    Type_size(src_ptr, &size);
+    if (size > 0 && dest_count / size < src_count)
+      src_count = dest_count / size;
+
+    Pack(source, src_count, src_ptr, dest, dest_count, &position, NULL);
+    return position;
+  }
+
+  n = src_ptr->count * src_count;
+  if (dest_ptr->count * dest_count < n)
+    n = dest_ptr->count * dest_count;
+
+  Pcopy_elements(source, src_ptr, dest, dest_ptr, n);
+  return n;
+}
diff --git a/mpiP.h b/mpiP.h
index 5f95397..fc2104b 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -109,6 +109,8 @@ typedef struct
 /* copy functions */
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
+extern int copy_message(void * source, int src_count, MPI_Datatype src_type,
+                        void * dest, int dest_count, MPI_Datatype dest_type);
 
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
diff --git a/recv.c b/recv.c
index 9af0886..bc5177d 100644
--- a/recv.c
+++ b/recv.c
@@ -79,7 +79,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index 6b84dbd..5cf6d33 100644
--- a/send.c
+++ b/send.c
@@ -67,7 +67,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -84,6 +84,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
+  sreq->count=count;
+  sreq->type=datatype;
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.h b/type.h
index f495289..65e6bc7 100644
--- a/type.h
+++ b/type.h
@@ -82,6 +82,7 @@ typedef Typestruct* Datatype;
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
+int Type_size(Datatype type, int * size);
 
 //testing only
 int print_typemap(MPI_Datatype in);
-- 
2.43.0


From 53f9cb9b673185af84c63bd4254542d316c86e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 20/23] fix: statuses carry the number of elements actually
 received

Only MPI_Recv set the count, and to the receiver's capacity; Wait, Test
and Probe left it uninitialised.  Record the number of basic elements that
were transferred and derive MPI_Get_count and MPI_Get_elements from it.
---
 getcount.c | 13 ++++++++++---
 mpi.h      |  2 +-
 probe.c    |  3 +++
 recv.c     |  7 +++----
 req.c      |  2 ++
 send.c     |  3 ++-
 6 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/getcount.c b/getcount.c
index 565f107..ec02c28 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,15 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  if (dt_ptr->count==0)
+    *count = 0;
+  else if (status->get_count % dt_ptr->count != 0)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +44,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index 82cff25..f80818b 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,7 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Number of basic elements received */
 
 } MPI_Status;
 
diff --git a/probe.c b/probe.c
index 8b66042..04dfb22 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -53,6 +54,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count *
+	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index bc5177d..e2283ee 100644
--- a/recv.c
+++ b/recv.c
@@ -68,6 +68,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->complete=1;
       rreq->source=MPI_PROC_NULL;
       rreq->tag=MPI_ANY_TAG;
+      rreq->count=0;
 
       return(MPI_SUCCESS);
     }
@@ -79,7 +80,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
+      rreq->count=
+        copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -136,9 +138,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index abc2619..8e4aaa1 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->count;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index 5cf6d33..203b1cc 100644
--- a/send.c
+++ b/send.c
@@ -67,7 +67,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->count=
+        copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
-- 
2.43.0


From b3a1bd788130fbb42073cc1e099bf6c0e73888fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 21/23] fix: a datatype freed while a message is pending stays
 usable for it

The pending operation referred to the released datatype when it was
matched later.  Release it when the last pending operation completes.
---
 recv.c |  3 +++
 send.c |  3 +++
 type.c | 28 ++++++++++++++++++++++++++++
 type.h |  4 ++++
 4 files changed, 38 insertions(+)

diff --git a/recv.c b/recv.c
index e2283ee..3eb1be9 100644
--- a/recv.c
+++ b/recv.c
@@ -1,5 +1,6 @@
 
 #include "mpiP.h"
+#include "type.h"
 
 
 
@@ -82,6 +83,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 //      memcpy(buf,sreq->buf,count * datatype);
       rreq->count=
         copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
+      Type_release(sreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -98,6 +100,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   rreq->buf=buf;
+  Type_hold(datatype);
   rreq->tag=tag;
   rreq->complete=0;
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
diff --git a/send.c b/send.c
index 203b1cc..75245d5 100644
--- a/send.c
+++ b/send.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -69,6 +70,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
       rreq->count=
         copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      Type_release(rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -87,6 +89,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->buf=buf;
   sreq->count=count;
   sreq->type=datatype;
+  Type_hold(datatype);
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.c b/type.c
index 1801737..eda09a1 100644
--- a/type.c
+++ b/type.c
@@ -368,6 +368,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   }
   //type is NOT committed
   temp->committed = 0;
+  temp->pending = 0;
+  temp->freed = 0;
 
   //assign upper and lower bounds here
   temp->o_lb = 0;
@@ -826,6 +828,15 @@ int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
+
+  // a pending operation still needs the type: free it on completion
+  if (type_ptr->pending > 0)
+  {
+    type_ptr->freed = 1;
+    *datatype = MPI_DATATYPE_NULL;
+    return MPI_SUCCESS;
+  }
+
   free(type_ptr);
   type_ptr = MPI_DATATYPE_NULL;
 
@@ -835,6 +846,23 @@ int MPI_Type_free(MPI_Datatype * datatype)
   return MPI_SUCCESS;
 }
 
+/* An operation that uses datatype becomes pending */
+void Type_hold(MPI_Datatype datatype)
+{
+  (*(Datatype*) mpi_handle_to_datatype(datatype))->pending++;
+}
+
+/* A pending operation that used datatype has completed */
+void Type_release(MPI_Datatype datatype)
+{
+  Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(datatype);
+
+  type_ptr->pending--;
+
+  if (type_ptr->pending == 0 && type_ptr->freed)
+    MPI_Type_free(&datatype);
+}
+
 /* Print_typemap is used in test programs only when
  * --enable-test-internal is enabled in configure.
  */
diff --git a/type.h b/type.h
index 65e6bc7..ddf8ac8 100644
--- a/type.h
+++ b/type.h
@@ -28,6 +28,8 @@ typedef struct
   int committed; //type has been committed
   int o_lb; //overridden lower/upper bound
   int o_ub; // "
+  int pending; //number of pending operations that use the type
+  int freed;   //freed by the user while pending
   /* pairs[] is size 2 because of predefined types
    * such as MPI_2INT that have 2 typemap entries
    * upon initialization.
@@ -83,6 +85,8 @@ typedef Typestruct* Datatype;
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
 int Type_size(Datatype type, int * size);
+void Type_hold(MPI_Datatype datatype);
+void Type_release(MPI_Datatype datatype);
 
 //testing only
 int print_typemap(MPI_Datatype in);
-- 
2.43.0


From c4364d3a5255c1c719d4d4698879bcd40ee53a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 22/23] fix: MPI_Pack/MPI_Unpack overflow check near INT_MAX
 wrote past the buffer

---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 82719ed..71d710d 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -134,7 +134,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if (Simpletype_length(type->pairs[j].type) > insize - (*position))
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 652f6262852bb2f6243f9cf77278f1ba5bfabdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 23/23] fix: MPI_Reduce terminated the program for the
 inter-communicator root MPI_ROOT

---
 collective.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collective.c b/collective.c
index 5ada239..859a40b 100644
--- a/collective.c
+++ b/collective.c
@@ -311,6 +311,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
 	       MPI_Datatype datatype, MPI_Op op, int root, MPI_Comm comm)
 
 {
+  if (root==MPI_ROOT)
+    return(MPI_SUCCESS);
+
   if (root!=0)
     {
       fprintf(stderr,"MPI_Reduce: bad root = %d\n",root);
-- 
2.43.0

