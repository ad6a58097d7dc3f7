"""Planted bugs: edits of original lines, with a demonstration each."""
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <mpi.h>
/* runs f in a child; returns 1 if the child was terminated (abnormally or with nonzero status) */
static int dies(void (*f)(void)) { int s; fflush(stdout); pid_t p=fork(); if(!p){ freopen("/dev/null","w",stderr); freopen("/dev/null","w",stdout); f(); _exit(0);} waitpid(p,&s,0); return !(WIFEXITED(s)&&WEXITSTATUS(s)==0); }
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s (line %d)\\n",#x,__LINE__); exit(1);} }while(0)
'''
SEEDS = {}


def seed(id, prop, edits, needs, breaks, c=None, f90=None, nth=None, cflags=''):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, nth=nth or {}, cflags=cflags)
    if c:
        SEEDS[id]['c'] = H + c
    if f90:
        SEEDS[id]['f90'] = f90


seed('c01-block-number', 'C01', [('handles.c', 'new=init_block(nblocks,blocks[nblocks]);', 'new=init_block(nblocks-1,blocks[nblocks]);')],
     'more than 255 handles live at once', 'handles of the second block repeat those of the first',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); enum{N=600}; MPI_Comm h[N]; int i,j;
 for(i=0;i<N;i++) MPI_Comm_dup(MPI_COMM_WORLD,&h[i]);
 for(i=0;i<N;i++) for(j=0;j<i;j++) CHECK(h[i]!=h[j]);
 return 0; }
''')

seed('c02-delete-head-prev', 'C02', [('list.c', '    item->next->prev = item->prev;\n\n  AP_listitem_free(item);', '    if (item->prev)\n      item->next->prev = item->prev;\n\n  AP_listitem_free(item);')],
     'two pending messages are matched in order and a third is posted afterwards', 'the queue keeps a pointer to a freed node and loses the third message',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int a=1,b=2,d=3,x=0,y=0,z=0; MPI_Request r; MPI_Status s; int f;
 MPI_Request q[3];
 MPI_Isend(&a,1,MPI_INT,0,1,MPI_COMM_WORLD,&q[0]);
 MPI_Isend(&b,1,MPI_INT,0,2,MPI_COMM_WORLD,&q[1]);
 MPI_Recv(&x,1,MPI_INT,0,1,MPI_COMM_WORLD,&s);
 MPI_Recv(&y,1,MPI_INT,0,2,MPI_COMM_WORLD,&s);
 MPI_Isend(&d,1,MPI_INT,0,3,MPI_COMM_WORLD,&q[2]);
 MPI_Iprobe(0,3,MPI_COMM_WORLD,&f,&s);
 CHECK(f); MPI_Recv(&z,1,MPI_INT,0,3,MPI_COMM_WORLD,&s); CHECK(z==3);
 return 0; }
''')

seed('c02-count-after-free', 'C02', [('list.c', '  AP_listitem_free(item);\n  (list->count)--;', '  if (list->tail != NULL && item->prev == list->tail)\n    (list->count)++;\n  AP_listitem_free(item);\n  (list->count)--;')],
     'the last of several pending messages is matched first', 'the queue size is one too large, and freeing the communicator aborts',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int a=1,b=2,y=0; MPI_Comm w; MPI_Status s; MPI_Request q[2];
 MPI_Comm_dup(MPI_COMM_WORLD,&w);
 MPI_Isend(&a,1,MPI_INT,0,1,w,&q[0]);
 MPI_Isend(&b,1,MPI_INT,0,2,w,&q[1]);
 MPI_Recv(&y,1,MPI_INT,0,2,w,&s); CHECK(y==2);
 freopen("/dev/null","w",stderr);
 MPI_Comm_free(&w);
 return 0; }
''')

seed('c16-incl-count', 'C16', [('group.c', 'if (n==1 && ranks[0]==0)', 'if (ranks[0]==0)')],
     'an inclusion list of more than one rank that starts with 0', 'a list that is not exactly rank 0 is accepted',
     c='''
static void f(void){ MPI_Group g,n; int r[2]={0,1}; MPI_Comm_group(MPI_COMM_WORLD,&g); MPI_Group_incl(g,2,r,&n); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c16-translate-negative', 'C16', [('group.c', '      if (ranks1[i]!=0)\n', '      if (ranks1[i]>0)\n')],
     'a negative rank among those to translate', 'the bad rank is passed on instead of being refused',
     c='''
static void f(void){ MPI_Group g; int r[3]={0,0,-7},o[3]; MPI_Comm_group(MPI_COMM_WORLD,&g); MPI_Group_translate_ranks(g,3,r,g,o); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c17-intercomm-null', 'C17', [('comm.c', 'if (local_comm==MPI_COMM_NULL && peer_comm==MPI_COMM_NULL)', 'if (local_comm==MPI_COMM_NULL || peer_comm==MPI_COMM_NULL)')],
     'an inter-communicator creation in which only the peer communicator is null (significant only at the leader)', 'the null communicator is returned to a member',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Comm n=-5; MPI_Intercomm_create(MPI_COMM_WORLD,0,MPI_COMM_NULL,0,3,&n); CHECK(n!=MPI_COMM_NULL); CHECK(n!=MPI_COMM_WORLD); return 0; }
''')

seed('c18-coords-negative', 'C18', [('cart.c', '  if (rank != 0)\n', '  if (rank > 0)\n')],
     'coordinates of a negative rank', 'a rank other than 0 is not refused',
     c='''
static void f(void){ int co[2]; MPI_Cart_coords(MPI_COMM_WORLD,-1,2,co); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c18-cart-last-dim', 'C18', [('cart.c', '  for (i = 0; i < ndims; i++)\n    if (dims[i] > 1)', '  for (i = 0; i < ndims && dims[i] > 0; i++)\n    if (dims[i] > 1)')],
     'a dimension of 0 followed by one greater than 1', 'a grid with a dimension above 1 is accepted',
     c='''
static void f(void){ int d[3]={1,0,2},p[3]={0,0,0}; MPI_Comm n; MPI_Cart_create(MPI_COMM_WORLD,3,d,p,0,&n); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c20-reinit', 'C20', [('handles.c', '  if (need_to_init)\n    return;\n\n  for (i=1; i<nblocks; i++)          /* blocks[0] is statically allocated */',
                            '  if (need_to_init || nblocks==1)\n    return;                          /* blocks[0] is statically allocated */\n\n  for (i=1; i<nblocks; i++)')],
     'initialise, finalise, initialise again with fewer than 256 handles used', 'the second initialisation does not yield the world communicator',
     c='''
static void f(void){ int x=0; char **y=0; MPI_Init(&x,&y); MPI_Finalize(); MPI_Init(&x,&y); MPI_Finalize(); }
int main(int c,char**v){ CHECK(!dies(f)); return 0; }
''')

seed('c20-version-pad', 'C20', [('mpi.c', "memset(version+(*resultlen),' ',MPI_MAX_LIBRARY_VERSION_STRING-(*resultlen));", "memset(version+(*resultlen),' ',MPI_MAX_LIBRARY_VERSION_STRING-1-(*resultlen));")],
     'the last character of the Fortran version string is looked at', 'the string is not blank padded to its full length',
     f90='''program t
  implicit none
  include "mpif.h"
  character(len=MPI_MAX_LIBRARY_VERSION_STRING) :: s
  integer :: n, e, i
  call mpi_get_library_version(s,n,e)
  do i=n+1,MPI_MAX_LIBRARY_VERSION_STRING
    if (s(i:i) /= ' ') then
      print *,'FAILED: not blank at',i
      stop 1
    end if
  end do
end program
''')

seed('c21-alltoallw', 'C21', [('collective.c', '''  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
			recvbuf, recvcounts, rdispls, recvtypes,''', '''  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
			recvbuf, recvcounts, sdispls, recvtypes,''')],
     'a Fortran all-to-all (w form) with different send and receive displacements', 'the receive displacement is ignored',
     f90='''program t
  implicit none
  include "mpif.h"
  integer :: a(4), b(4), n(1), sd(1), rd(1), ty(1), e
  a = (/1,2,3,4/)
  b = 0
  n(1)=1
  sd(1)=0
  rd(1)=8
  ty(1)=MPI_INTEGER
  call mpi_init(e)
  call mpi_alltoallw(a,n,sd,ty,b,n,rd,ty,MPI_COMM_WORLD,e)
  if (b(3) /= 1 .or. b(1) /= 0) then
    print *,'FAILED',b
    stop 1
  end if
end program
''')

seed('c21-scatterv-inplace', 'C21', [('collective.c', '''		       *sendtype, mpi_c_in_place(recvbuf), *recvcount,
		       *recvtype, *root, *comm);''', '''		       *sendtype, recvbuf, *recvcount,
		       *recvtype, *root, *comm);''')],
     'a Fortran scatterv with the in-place constant', 'the in-place constant is taken for a buffer and overwritten',
     f90='''program t
  implicit none
  include "mpif.h"
  integer :: a(4), n(1), d(1), e, old
  a = (/11,2,3,4/)
  n(1)=1
  d(1)=0
  call mpi_init(e)
  old = MPI_IN_PLACE
  call mpi_scatterv(a,n,d,MPI_INTEGER,MPI_IN_PLACE,1,MPI_INTEGER,0,MPI_COMM_WORLD,e)
  if (MPI_IN_PLACE /= old) then
    print *,'FAILED: marker overwritten'
    stop 1
  end if
end program
''')

seed('c22-real16', 'C22', [('mpi.h', '#define MPI_REAL16         (-39)', '#define MPI_REAL16         (-38)')],
     'the handle of MPI_REAL16 is used from C', 'the constant names another datatype in C than in Fortran',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int n=0; MPI_Type_size(MPI_REAL16,&n); CHECK(n==16); CHECK(MPI_REAL16!=MPI_REAL8); return 0; }
''')

# ---------------------------------------------------------------- second batch
seed('c03-nonneg-any', 'C03', [('send.c', 'return( ((Req *)r)->tag == MPI_ANY_TAG ||', 'return( ((Req *)r)->tag <= 0 ||')],
     'a pending receive for tag 0, then a send with another tag', 'the receive for tag 0 takes a message with another tag',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int x=-1,y=-1,a=7,b=9; MPI_Request r; MPI_Status s; int f;
 MPI_Irecv(&x,1,MPI_INT,0,0,MPI_COMM_WORLD,&r);
 MPI_Request q; MPI_Isend(&a,1,MPI_INT,0,5,MPI_COMM_WORLD,&q);
 MPI_Test(&r,&f,&s); CHECK(!f && x==-1);
 MPI_Recv(&y,1,MPI_INT,0,5,MPI_COMM_WORLD,&s); CHECK(y==7);
 MPI_Send(&b,1,MPI_INT,0,0,MPI_COMM_WORLD); CHECK(x==9);
 return 0; }
''')

seed('c03-truncated-tag', 'C03', [('recv.c', '*((int *)tag) == ((Req *)r)->tag );', '(short) *((int *)tag) == (short) ((Req *)r)->tag );')],
     'two pending sends whose tags agree in the low 16 bits', 'the receive takes the message with the other tag',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int x=-1,a=7,b=9; MPI_Status s; MPI_Request q[2];
 MPI_Isend(&a,1,MPI_INT,0,65541,MPI_COMM_WORLD,&q[0]);
 MPI_Isend(&b,1,MPI_INT,0,5,MPI_COMM_WORLD,&q[1]);
 MPI_Recv(&x,1,MPI_INT,0,5,MPI_COMM_WORLD,&s); CHECK(x==9 && s.MPI_TAG==5);
 MPI_Recv(&x,1,MPI_INT,0,65541,MPI_COMM_WORLD,&s); CHECK(x==7);
 return 0; }
''')

seed('c04-negative-dest', 'C04', [('send.c', 'if (dest!=0 && dest!=MPI_PROC_NULL)', 'if (dest>0)')],
     'a send to a negative rank that is not the null process', 'the send is delivered to rank 0 instead of being refused',
     c='''
static void f(void){ int a=1; MPI_Request q; MPI_Isend(&a,1,MPI_INT,-7,1,MPI_COMM_WORLD,&q); }
int main(int c,char**v){ MPI_Init(&c,&v); int a=1; MPI_Send(&a,1,MPI_INT,MPI_PROC_NULL,1,MPI_COMM_WORLD); CHECK(dies(f)); return 0; }
''')

seed('c04-procnull-tag', 'C04', [('recv.c', '      rreq->source=MPI_PROC_NULL;\n      rreq->tag=MPI_ANY_TAG;', '      rreq->source=MPI_PROC_NULL;\n      rreq->tag=tag;')],
     'a receive from the null process with a specific tag', 'its status reports that tag instead of any tag',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int x=3; MPI_Status s; memset(&s,1,sizeof s);
 MPI_Recv(&x,1,MPI_INT,MPI_PROC_NULL,4,MPI_COMM_WORLD,&s);
 CHECK(x==3 && s.MPI_SOURCE==MPI_PROC_NULL && s.MPI_TAG==MPI_ANY_TAG); return 0; }
''')

seed('c05-dest-repeat', 'C05', [('copy.c', '((i / dest_type->count) * dest_extent)', '((i / src_type->count) * dest_extent)')],
     'the two types have different numbers of elements', 'elements land at the wrong repetition of the destination type',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Datatype t; int a[6]={1,2,3,4,5,6},b[12],i;
 MPI_Type_vector(2,1,2,MPI_INT,&t); MPI_Type_commit(&t);
 for(i=0;i<12;i++) b[i]=-1;
 MPI_Request q; MPI_Isend(a,6,MPI_INT,0,1,MPI_COMM_WORLD,&q);
 MPI_Recv(b,3,t,0,1,MPI_COMM_WORLD,MPI_STATUS_IGNORE);
 int want[12]={1,-1,2,3,-1,4,5,-1,6,-1,-1,-1};
 for(i=0;i<12;i++) CHECK(b[i]==want[i]);
 return 0; }
''')

seed('c05-int-offset', 'C05', [('copy.c', '  long soffset, doffset;', '  int soffset, doffset;')],
     'an element more than 2 GB from the start of the buffer', 'the offset wraps and other memory is read and written',
     c='''
#include <sys/mman.h>
int main(int c,char**v){ MPI_Init(&c,&v); size_t N=3ull<<30, M=4ull<<30; MPI_Datatype t;
 char *base=mmap(0,N+2*M,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) return 0;
 char *p=base+M; int out[2]={0,0};
 MPI_Aint d[2]={0,2684354560L}; int bl[2]={1,1};
 MPI_Type_hindexed(2,bl,d,MPI_INT,&t); MPI_Type_commit(&t);
 *(int*)p=5; *(int*)(p+d[1])=6;
 MPI_Gather(p,1,t,out,2,MPI_INT,0,MPI_COMM_WORLD);
 CHECK(out[0]==5 && out[1]==6); return 0; }
''')

seed('c06-release-with-status', 'C06', [('req.c', '\t}\n\n      mpi_free_handle(*request);\n      *request=MPI_REQUEST_NULL;\n    }', '\n      mpi_free_handle(*request);\n      *request=MPI_REQUEST_NULL;\n\t}\n    }')],
     'a completed request is tested with the status ignored', 'the request is neither released nor set to null',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int x,a=1,f; MPI_Request r,q;
 MPI_Irecv(&x,1,MPI_INT,0,1,MPI_COMM_WORLD,&r); MPI_Isend(&a,1,MPI_INT,0,1,MPI_COMM_WORLD,&q);
 MPI_Test(&r,&f,MPI_STATUS_IGNORE); CHECK(f && r==MPI_REQUEST_NULL);
 MPI_Test(&q,&f,MPI_STATUS_IGNORE); CHECK(f && q==MPI_REQUEST_NULL); return 0; }
''')

seed('c07-waitany-none-complete', 'C07', [('req.c', '  if (!flag)\n  {\n    /* none are completed */', '  if (!flag && *index!=MPI_UNDEFINED)\n  {\n    /* none are completed */')],
     'waiting for any of several requests none of which is complete', 'the wait returns as if no request were active',
     c='''
static void f(void){ int x,i; MPI_Request r; MPI_Irecv(&x,1,MPI_INT,0,1,MPI_COMM_WORLD,&r); MPI_Waitany(1,&r,&i,MPI_STATUS_IGNORE); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); MPI_Request n=MPI_REQUEST_NULL; int i; MPI_Waitany(1,&n,&i,MPI_STATUS_IGNORE); CHECK(i==MPI_UNDEFINED); return 0; }
''')

seed('c07-testall-empty', 'C07', [('req.c', '  *flag = 1;\n\n', '  *flag = (count > 0);\n\n')],
     'testing an empty array of requests', 'it reports that some request is incomplete',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int f=-1; MPI_Request r=MPI_REQUEST_NULL; MPI_Testall(1,&r,&f,MPI_STATUSES_IGNORE); CHECK(f==1);
 MPI_Testall(0,&r,&f,MPI_STATUSES_IGNORE); CHECK(f==1); return 0; }
''')

seed('c08-negative-source', 'C08', [('probe.c', 'if (source!=0 && source!=MPI_ANY_SOURCE)', 'if (source>0)')],
     'a probe for a negative source other than the wildcard', 'it reports a message from rank 0 instead of terminating',
     c='''
static void f(void){ int a=1,fl; MPI_Request q; MPI_Isend(&a,1,MPI_INT,0,1,MPI_COMM_WORLD,&q); MPI_Iprobe(-9,1,MPI_COMM_WORLD,&fl,MPI_STATUS_IGNORE); }
int main(int c,char**v){ MPI_Init(&c,&v); int fl; MPI_Iprobe(MPI_ANY_SOURCE,1,MPI_COMM_WORLD,&fl,MPI_STATUS_IGNORE); CHECK(!fl); CHECK(dies(f)); return 0; }
''')

seed('c08-status-tag', 'C08', [('probe.c', 'status->MPI_TAG= sreq->tag;', 'status->MPI_TAG= tag;')],
     'a probe with the any-tag wildcard', 'the status reports the wildcard instead of the tag of the message',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int a=1; MPI_Request q; MPI_Status s; MPI_Isend(&a,1,MPI_INT,0,6,MPI_COMM_WORLD,&q);
 MPI_Probe(0,6,MPI_COMM_WORLD,&s); CHECK(s.MPI_TAG==6); MPI_Probe(MPI_ANY_SOURCE,MPI_ANY_TAG,MPI_COMM_WORLD,&s); CHECK(s.MPI_TAG==6); return 0; }
''')

seed('c12-unpack-extent', 'C12', [('pack.c', 'memcpy(outbuf+type->pairs[j].disp + (extent*i), ((char*) inbuf)+(*position) ,', 'memcpy(outbuf+type->pairs[j].disp + ((type->ub - type->lb)*i), ((char*) inbuf)+(*position) ,')],
     'unpacking several items of a structure whose extent is padded', 'the second item is written at the unpadded distance',
     c='''
struct S{ double d; char c; };
int main(int c,char**v){ MPI_Init(&c,&v); struct S a[3]={{1,'a'},{2,'b'},{3,'c'}},b[3]; char buf[100]; int p=0,i;
 int bl[2]={1,1}; MPI_Aint d[2]={0,8}; MPI_Datatype o[2]={MPI_DOUBLE,MPI_CHAR},t; MPI_Type_struct(2,bl,d,o,&t); MPI_Type_commit(&t);
 memset(b,0,sizeof b);
 MPI_Pack(a,3,t,buf,100,&p,MPI_COMM_WORLD); CHECK(p==27); p=0; MPI_Unpack(buf,100,&p,b,3,t,MPI_COMM_WORLD);
 for(i=0;i<3;i++) CHECK(b[i].d==a[i].d && b[i].c==a[i].c); return 0; }
''')

seed('c12-position-item', 'C12', [('pack.c', '      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),\n             Simpletype_length(type->pairs[j].type));\n      *position += Simpletype_length(type->pairs[j].type);',
      '      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),\n             Simpletype_length(type->pairs[j].type));\n      *position += Simpletype_length(type->pairs[i % type->count].type);')],
     'packing a structure with elements of different sizes', 'the position advances by the size of another element',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); struct{double d;char c;} a[2]={{1,'x'},{2,'y'}}; char buf[100]; int p=0;
 int bl[2]={1,1}; MPI_Aint d[2]={0,8}; MPI_Datatype o[2]={MPI_DOUBLE,MPI_CHAR},t; MPI_Type_struct(2,bl,d,o,&t); MPI_Type_commit(&t);
 MPI_Pack(a,1,t,buf,100,&p,MPI_COMM_WORLD); CHECK(p==9); double e=5; MPI_Pack(&e,1,MPI_DOUBLE,buf,100,&p,MPI_COMM_WORLD); CHECK(p==17);
 memcpy(&e,buf,8); CHECK(e==1); CHECK(buf[8]=='x'); memcpy(&e,buf+9,8); CHECK(e==5); return 0; }
''')

seed('c13-int-product', 'C13', [('pack.c', '    *size *= incount;', '    *size = (int) *size * incount;')],
     'a count whose packed size exceeds 2 GB', 'the reported size wraps',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Aint s=0; MPI_Pack_size(10,MPI_DOUBLE,MPI_COMM_WORLD,&s); CHECK(s==80);
 MPI_Pack_size(600000000,MPI_DOUBLE,MPI_COMM_WORLD,&s); CHECK(s==4800000000L); return 0; }
''')

seed('c13-extent', 'C13', [('pack.c', '        *size += Simpletype_length(datatype->pairs[i].type);', '        if (i == 0 || datatype->pairs[i].disp > datatype->pairs[i-1].disp)\n            *size += Simpletype_length(datatype->pairs[i].type);')],
     'a type map whose displacements are not increasing', 'the size leaves elements out',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Aint s=0; MPI_Datatype t; int bl[2]={1,1},d[2]={3,0}; MPI_Type_indexed(2,bl,d,MPI_INT,&t); MPI_Type_commit(&t);
 int a[4]={0},p=0; char b[64]; MPI_Pack_size(1,t,MPI_COMM_WORLD,&s); MPI_Pack(a,1,t,b,64,&p,MPI_COMM_WORLD); CHECK(s==8 && p==8); return 0; }
''')

seed('c14-alltoallv-extent', 'C14', [('collective.c', '  MPI_Type_extent(recvtype, &rt_extent);\n\n  send_offset', '  MPI_Type_extent(sendtype, &rt_extent);\n\n  send_offset')],
     'all-to-all with a receive displacement and types of different extents', 'the data is written at a displacement in extents of the wrong type',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Datatype t; MPI_Type_contiguous(2,MPI_INT,&t); MPI_Type_commit(&t);
 int a[4]={1,2,3,4},b[8]={0},sc=4,sd=0,rc=2,rd=1; MPI_Alltoallv(a,&sc,&sd,MPI_INT,b,&rc,&rd,t,MPI_COMM_WORLD);
 CHECK(b[0]==0 && b[1]==0 && b[2]==1 && b[3]==2 && b[4]==3 && b[5]==4 && b[6]==0); return 0; }
''')

seed('c14-alltoallw-count', 'C14', [('collective.c', '  copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],\n             (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);',
      '  copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],\n             (char*)recvbuf+rdispls[0], sendcounts[0], recvtypes[0]);')],
     'different element counts on the two sides', 'the receive side is filled with the wrong number of elements, or the call is refused',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); MPI_Datatype t,i=MPI_INT; MPI_Type_contiguous(2,MPI_INT,&t); MPI_Type_commit(&t);
 int a[4]={1,2,3,4},b[6]={0},sc=2,sd=0,rc=4,rd=4; MPI_Alltoallw(a,&sc,&sd,&t,b,&rc,&rd,&i,MPI_COMM_WORLD);
 CHECK(b[0]==0 && b[1]==1 && b[2]==2 && b[3]==3 && b[4]==4); return 0; }
''')

seed('c15-scatterv-root', 'C15', [('collective.c', '      fprintf(stderr,"MPI_Scatterv: bad root = %d\\n",root);\n      abort();', '      fprintf(stderr,"MPI_Scatterv: bad root = %d\\n",root);\n      if (root>0)\n        abort();')],
     'a scatter with a negative root that is no marker', 'data is moved instead of the program being terminated',
     c='''
static void f(void){ int a=1,b=0,n=1,d=0; MPI_Scatterv(&a,&n,&d,MPI_INT,&b,1,MPI_INT,-8,MPI_COMM_WORLD); }
static void g(void){ int a=1,b=0,n=1,d=0; MPI_Scatterv(&a,&n,&d,MPI_INT,&b,1,MPI_INT,1,MPI_COMM_WORLD); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(g)); CHECK(dies(f)); return 0; }
''')

seed('c15-gather-inplace-late', 'C15', [('collective.c', '  if (sendbuf==MPI_IN_PLACE)\n    return(MPI_SUCCESS);\n\n  if (root==MPI_ROOT)\n    return(MPI_SUCCESS);\n\n  if (root!=0)\n    {\n      fprintf(stderr,"MPI_Gatherv: bad root = %d\\n",root);\n      abort();\n    }\n\n  MPI_Type_extent(recvtype, &rt_extent);',
      '  if (sendbuf==MPI_IN_PLACE && sendcount==recvcounts[0])\n    return(MPI_SUCCESS);\n\n  if (root==MPI_ROOT)\n    return(MPI_SUCCESS);\n\n  if (root!=0)\n    {\n      fprintf(stderr,"MPI_Gatherv: bad root = %d\\n",root);\n      abort();\n    }\n\n  MPI_Type_extent(recvtype, &rt_extent);')],
     'an in-place gather whose (ignored) send count differs from the receive count', 'the in-place marker is read as if it were data',
     c='''
static void f(void){ int b=4,n=1,d=0; MPI_Gatherv(MPI_IN_PLACE,0,MPI_INT,&b,&n,&d,MPI_INT,0,MPI_COMM_WORLD); if(b!=4) abort(); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(!dies(f)); return 0; }
''')

seed('c19-over-receive-count', 'C19', [('copy.c', 'if (src_type->count * src_count < dest_type->count * dest_count)', 'if (src_count < dest_count)')],
     'a collective whose receive type has more elements than the send type', 'more elements are received than were contributed',
     c='''
static void f(void){ MPI_Datatype t; int a[8]={1},b[8]={0}; MPI_Type_contiguous(4,MPI_INT,&t); MPI_Type_commit(&t); MPI_Allgather(a,1,MPI_INT,b,1,t,MPI_COMM_WORLD); }
static void g(void){ MPI_Datatype t; int a[8]={1},b[8]={0}; MPI_Type_contiguous(4,MPI_INT,&t); MPI_Type_commit(&t); MPI_Allgather(a,1,t,b,4,MPI_INT,MPI_COMM_WORLD); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); CHECK(!dies(g)); return 0; }
''')

seed('c19-one-committed', 'C19', [('copy.c', 'if (!(src_type->committed && dest_type->committed))\n', 'if (!(src_type->committed || dest_type->committed))\n')],
     'a collective with an uncommitted type on one side only', 'the transfer is carried out',
     nth={'copy.c': 1},
     c='''
static void f(void){ MPI_Datatype t; int a[8]={1},b[8]={0}; MPI_Type_contiguous(2,MPI_INT,&t); MPI_Allgather(a,2,MPI_INT,b,1,t,MPI_COMM_WORLD); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c19-irsend-nonzero', 'C19', [('send.c', '  if ( !req->complete )\n', '  if ( !req->complete && count > 0 )\n')],
     'a ready send of zero elements without a posted receive', 'the send is left pending instead of being refused',
     c='''
static void f(void){ int a; MPI_Request q; MPI_Irsend(&a,0,MPI_INT,0,1,MPI_COMM_WORLD,&q); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')

seed('c23-comm-free-pending', 'C23', [('comm.c', '  AP_list_free(recvlist);\n', '  if (size==0)\n    AP_list_free(recvlist);\n')],
     'freeing a communicator that still has a pending receive', 'the storage of its receive queue is never returned',
     c='''
#include <malloc.h>
int main(int c,char**v){ MPI_Init(&c,&v); int i,x; freopen("/dev/null","w",stderr); long u[2]; 
 for(i=0;i<400;i++){ MPI_Comm d; MPI_Request r; MPI_Comm_dup(MPI_COMM_WORLD,&d); MPI_Irecv(&x,1,MPI_INT,0,1,d,&r); MPI_Request_free(&r); MPI_Comm_free(&d); if(i==199) u[0]=mallinfo2().uordblks; }
 u[1]=mallinfo2().uordblks; 
 /* the requests themselves stay (their operations never completed); the queues do not */
 CHECK(u[1]-u[0] < 200*100); return 0; }
''')

seed('c24-sendrecv-status', 'C24', [('send.c', '  MPI_Wait(&request,status);\n\n\n  return(MPI_SUCCESS);\n}\n\n\n', '  MPI_Wait(&request,MPI_STATUS_IGNORE);\n\n  if (status!=MPI_STATUS_IGNORE)\n    {\n      status->MPI_SOURCE=source;\n      status->MPI_TAG=recvtag;\n      status->get_count=recvcount;\n    }\n\n  return(MPI_SUCCESS);\n}\n\n\n')],
     'a combined send and receive that receives fewer elements than it has room for', 'the count query gives the capacity',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int a[2]={1,2},b[9],n=-1; MPI_Status s; MPI_Sendrecv(a,2,MPI_INT,0,1,b,9,MPI_INT,0,1,MPI_COMM_WORLD,&s); MPI_Get_count(&s,MPI_INT,&n); CHECK(n==2); return 0; }
''')

seed('c24-elements-size', 'C24', [('getcount.c', 'return(MPI_SUCCESS);\n}\n\n\n/********/', 'if (*count < 0 && *count != MPI_UNDEFINED)\n    *count = 0;\n  return(MPI_SUCCESS);\n}\n\n\n/********/')],
     '-', '-', c='int main(){return 0;}')
del SEEDS['c24-elements-size']
for _i in ('c05-dest-repeat', 'c12-position-item', 'c19-over-receive-count'):
    del SEEDS[_i]      # the existing tests notice these

seed('c19-over-receive-empty', 'C19', [('copy.c', 'if (src_type->count * src_count < dest_type->count * dest_count)', 'if (src_count > 0 && src_type->count * src_count < dest_type->count * dest_count)')],
     'a collective to which no elements are contributed', 'elements are received that were not contributed',
     c='''
static void f(void){ int a[8]={1},b[8]={0}; MPI_Allgather(a,0,MPI_INT,b,1,MPI_INT,MPI_COMM_WORLD); }
static void g(void){ int a[8]={1},b[8]={0}; MPI_Allgather(a,0,MPI_INT,b,0,MPI_INT,MPI_COMM_WORLD); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); CHECK(!dies(g)); return 0; }
''')

seed('c12-pack-int-offset', 'C12', [('pack.c', 'inbuf+type->pairs[j].disp + (extent*i),', 'inbuf+(int)(type->pairs[j].disp + extent*i),')],
     'an element more than 2 GB from the start of the buffer', 'other memory is packed',
     c='''
#include <sys/mman.h>
int main(int c,char**v){ MPI_Init(&c,&v); size_t N=3ull<<30, M=4ull<<30; MPI_Datatype t;
 char *base=mmap(0,N+2*M,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) return 0;
 char *p=base+M; int out[2]={0,0},pos=0;
 MPI_Aint d[2]={0,2684354560L}; int bl[2]={1,1};
 MPI_Type_hindexed(2,bl,d,MPI_INT,&t); MPI_Type_commit(&t);
 *(int*)p=5; *(int*)(p+d[1])=6;
 MPI_Pack(p,1,t,out,8,&pos,MPI_COMM_WORLD);
 CHECK(pos==8 && out[0]==5 && out[1]==6); return 0; }
''')

# ---------------------------------------------------------------- datatypes
seed('c09-indexed-int', 'C09', [('type.c', 'bdisps[i] = displacements[i] * extent;', 'bdisps[i] = displacements[i] * (int) extent + 0 * i; bdisps[i] = (int) bdisps[i];')],
     'an indexed type whose displacement in bytes exceeds 2^31', 'byte displacements are cut to 32 bits',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int bl[2]={1,1}, d[2]={0,1<<28}; MPI_Datatype t; double r[2]={0,0}, *b=calloc((1u<<28)+1,8); MPI_Status s;
 CHECK(b!=NULL); MPI_Type_indexed(2,bl,d,MPI_DOUBLE,&t); MPI_Type_commit(&t); b[0]=1.5; b[1<<28]=2.5;
 char out[16]; int pos=0; MPI_Pack(b,1,t,out,16,&pos,MPI_COMM_WORLD); memcpy(r,out,16); CHECK(pos==16); CHECK(r[0]==1.5); CHECK(r[1]==2.5); return 0; }
''')
seed('c09-true-extent', 'C09', [('type.c', 'Type_extent((Datatype) oldtypes_ptr[i], &extent);', 'Type_get_true_extent((Datatype) oldtypes_ptr[i], &extent);')],
     'an old type whose extent is set by bound markers, repeated in a block', 'copies of a resized type are spaced by the true extent',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int bl[2]={1,1}; MPI_Aint d[2]={0,12}; MPI_Datatype o[2]={MPI_INT,MPI_UB}, t, u; int b[8]={1,2,3,4,5,6,7,8}, r[2];
 MPI_Type_struct(2,bl,d,o,&t); MPI_Type_vector(1,2,2,t,&u); MPI_Type_commit(&u);
 int pos=0; MPI_Pack(b,1,u,r,8,&pos,MPI_COMM_WORLD); CHECK(pos==8); CHECK(r[0]==1); CHECK(r[1]==4); return 0; }
''')
seed('c09-empty-committed', 'C09', [('type.c', '  temp->committed = 0;', '  temp->committed = (simpletype_count == 0);')],
     'an empty type used without a commit', 'an empty datatype is committed from the start',
     c='''
static void f(void){ MPI_Datatype t; int x=1,y; MPI_Status s; MPI_Type_contiguous(0,MPI_INT,&t); MPI_Sendrecv(&x,1,t,0,1,&y,1,t,0,1,MPI_COMM_WORLD,&s); _exit(0); }
int main(int c,char**v){ MPI_Init(&c,&v); CHECK(dies(f)); return 0; }
''')
seed('c10-one-marker', 'C10', [('type.c', 'if (!(datatype->o_lb || datatype->o_ub))', 'if (!(datatype->o_lb && datatype->o_ub))')],
     'a datatype with one bound marker only, not a multiple of its largest element', 'the extent is padded although a marker is present',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int bl[2]={1,1}; MPI_Aint d[2]={0,13}, e; MPI_Datatype o[2]={MPI_DOUBLE,MPI_UB}, t;
 MPI_Type_struct(2,bl,d,o,&t); MPI_Type_extent(t,&e); CHECK(e==13); return 0; }
''')
seed('c10-negative-extent', 'C10', [('type.c', 'new_lb = temp2->lb+displacements[i]+tmp_offset;', 'new_lb = temp2->lb+displacements[i];')],
     'several copies of a type with a lower bound marker and a negative extent', 'the lower bound ignores all copies but the first',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int bl[3]={1,1,1}; MPI_Aint d[3]={0,0,-8}, lb; MPI_Datatype o[3]={MPI_INT,MPI_LB,MPI_UB}, t, u;
 MPI_Type_struct(3,bl,d,o,&t); MPI_Type_vector(1,3,3,t,&u); MPI_Type_lb(u,&lb); CHECK(lb==-16); return 0; }
''')
seed('c10-ub-int', 'C10', [('type.c', '    *ub = type->ub;', '    *ub = (int) type->ub;')],
     'an upper bound of 2^31 or more', 'the upper bound is cut to 32 bits',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int bl[2]={1,1}; MPI_Aint d[2]={0,3000000000L}, ub; MPI_Datatype t;
 MPI_Type_hindexed(2,bl,d,MPI_INT,&t); MPI_Type_ub(t,&ub); CHECK(ub==3000000004L); return 0; }
''')
seed('c11-complex32', 'C11', [('type.c', '    case SIMPLE_FCOMPLEX32:\n      return 32; break;', '    case SIMPLE_FCOMPLEX32:\n      return 16; break;')],
     'the 32-byte complex type', 'half of the value is moved',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int n; MPI_Aint e; MPI_Type_size(MPI_COMPLEX32,&n); MPI_Type_extent(MPI_COMPLEX32,&e); CHECK(n==32); CHECK(e==32); return 0; }
''')
seed('c11-2dprecision', 'C11', [('type_const.c', '.pairs[1] = { .disp=FSIZE_DPRECISION, .type = (Simpletype) SIMPLE_FDPRECISION}};',
      '.pairs[1] = { .disp=FSIZE_REAL, .type = (Simpletype) SIMPLE_FDPRECISION}};')],
     'data of type MPI_2DOUBLE_PRECISION', 'the second number is taken from the middle of the first',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); double a[2]={1.5,2.5}, b[2]={0,0}; MPI_Allreduce(a,b,1,MPI_2DOUBLE_PRECISION,MPI_MAXLOC,MPI_COMM_WORLD);
 CHECK(b[0]==1.5); CHECK(b[1]==2.5); return 0; }
''')
seed('c11-offset', 'C11', [('type.c', 'return sizeof(MPI_Offset); break;', 'return sizeof(MPI_Aint) / sizeof(char) / 2; break;')],
     'the file offset type', 'half of the offset is moved',
     c='''
int main(int c,char**v){ MPI_Init(&c,&v); int n; MPI_Type_size(MPI_OFFSET,&n); CHECK(n==sizeof(MPI_Offset)); return 0; }
''')
