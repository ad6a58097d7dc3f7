#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet.  refac.py [name...]"""
import sys, os, subprocess, tempfile, shutil, glob
R = []


def r(name, props, f, *edits):
    R.append((name, props, f, edits))


# helpers extracted
r('send-deliver-helper', 'C03 C06', 'send.c', ("""int MPI_Isend(void *buf, int count,""", """static void deliver(Req *rreq, void *buf, int count, MPI_Datatype datatype, int tag)
{
  rreq->count=
    copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
  Type_release(rreq->type);
  rreq->complete=1;
  rreq->source=0;
  rreq->tag=tag;
}

int MPI_Isend(void *buf, int count,"""), ("""      rreq->count=
        copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
      Type_release(rreq->type);
      rreq->complete=1;
      rreq->source=0;
      rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
""", "      deliver(rreq,buf,count,datatype,tag);\n"))
r('send-reorder', 'C03 C23', 'send.c', ("""      rreq->complete=1;
      rreq->source=0;
      rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */

      sreq->complete=1;
""", """      sreq->complete=1;
      rreq->tag=tag;
      rreq->source=0;
      rreq->complete=1;

"""), ("""  sreq->buf=buf;
  sreq->count=count;
  sreq->type=datatype;
  Type_hold(datatype);
  sreq->tag=tag;
  sreq->complete=0;
  sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
""", """  Type_hold(datatype);
  sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
  sreq->complete=0;
  sreq->tag=tag;
  sreq->type=datatype;
  sreq->count=count;
  sreq->buf=buf;
"""))
r('send-procnull-first', 'C04', 'send.c', ("""  if (dest!=0 && dest!=MPI_PROC_NULL)
    {
      fprintf(stderr,"MPI_Isend: send to %d\\n",dest);
      abort();
    }
""", """  switch (dest)
    {
    case 0:
    case MPI_PROC_NULL:
      break;
    default:
      fprintf(stderr,"MPI_Isend: send to %d\\n",dest);
      abort();
    }
"""))
r('send-else', 'C03', 'send.c', ("""      mpi_free_handle(rreq->freed);     /* if MPI_Request_free was called */
""", """      if (rreq->freed!=MPI_REQUEST_NULL)
        mpi_free_handle(rreq->freed);
"""))
r('recv-inverted', 'C03 C04', 'recv.c', ("""  if (( match=AP_list_search_func(mycomm->sendlist,mpi_match_send,&tag) ))
    {
      sreq""", """  match=AP_list_search_func(mycomm->sendlist,mpi_match_send,&tag);
  if (match!=NULL)
    {
      sreq"""), ("""  rreq->type = datatype;
  rreq->count = count;
  rreq->freed = MPI_REQUEST_NULL;
  if (source""", """  rreq->freed = MPI_REQUEST_NULL;
  rreq->count = count;
  rreq->type = datatype;
  if (source"""))
r('match-if', 'C03 C08', 'recv.c', ("""    return( *((int *)tag) == MPI_ANY_TAG ||
	  *((int *)tag) == ((Req *)r)->tag );""", """    Req *req=(Req *)r;
    int want=*((int *)tag);

    if (want==MPI_ANY_TAG)
      return(1);
    return(req->tag==want);"""))
r('match-nonbool', 'C03', 'send.c', ("""    return( ((Req *)r)->tag == MPI_ANY_TAG ||
	  ((Req *)r)->tag == *((int *)tag) );""", """    int mine=((Req *)r)->tag;

    return( (mine != MPI_ANY_TAG && mine != *((int *)tag)) ? 0 : 1 );"""))
r('probe-direct', 'C08', 'probe.c', ("""  *flag= (match==NULL ? 0:1 );

  if (*flag)
    {""", """  *flag=0;

  if (match!=NULL)
    {
      *flag=1;"""))
r('probe-early', 'C08', 'probe.c', ("""  *flag= (match==NULL ? 0:1 );

  if (*flag)
    {
      sreq=(Req *)AP_listitem_data(match);

      if (status!=MPI_STATUS_IGNORE)
	{
	  status->MPI_SOURCE=0  ;
	  status->MPI_TAG= sreq->tag;
	  status->get_count= sreq->count *
	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
	}
    }
""", """  if (match==NULL)
    {
      *flag=0;
      return(MPI_SUCCESS);
    }

  *flag=1;
  if (status==MPI_STATUS_IGNORE)
    return(MPI_SUCCESS);

  sreq=(Req *)AP_listitem_data(match);
  status->get_count= (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count * sreq->count;
  status->MPI_TAG= sreq->tag;
  status->MPI_SOURCE=0  ;
"""))
r('test-status-helper', 'C06 C24', 'req.c', ("""int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
{""", """static void set_status(MPI_Status *status, int source, int tag, int n)
{
  if (status==MPI_STATUS_IGNORE)
    return;
  status->get_count= n;
  status->MPI_SOURCE= source;
  status->MPI_TAG= tag;
}

int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
{"""), ("""      if (status!=MPI_STATUS_IGNORE)
	{
	  status->MPI_TAG= MPI_ANY_TAG;
	  status->MPI_SOURCE= MPI_ANY_SOURCE;
	  status->get_count= 0;
	}
""", "      set_status(status,MPI_ANY_SOURCE,MPI_ANY_TAG,0);\n"), ("""      if (status!=MPI_STATUS_IGNORE)
	{
	  status->MPI_SOURCE= req->source;
	  status->MPI_TAG= req->tag;
	  status->get_count= req->count;
	}
""", "      set_status(status,req->source,req->tag,req->count);\n"))
r('test-early-return', 'C06', 'req.c', ("""  *flag=req->complete;

  if (*flag)
    {
      if""", """  if (!req->complete)
    {
      *flag=0;
      return(MPI_SUCCESS);
    }

  *flag=1;
    {
      if"""))
r('waitall-while', 'C07', 'req.c', ("""  for (i=0; i<count; i++)
    {
      MPI_Test(&array_of_requests[i],&flag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[i]);

      if (!flag)
        {
          fprintf(stderr,"MPI_Waitall: request not complete, deadlock\\n");
          abort();
        }
    }
""", """  i=0;
  while (i<count)
    {
      MPI_Status *s=MPI_STATUS_IGNORE;

      if (array_of_statuses!=MPI_STATUSES_IGNORE)
        s=array_of_statuses+i;
      flag=0;
      MPI_Test(array_of_requests+i,&flag,s);

      if (flag)
        {
          i++;
          continue;
        }
      fprintf(stderr,"MPI_Waitall: request not complete, deadlock\\n");
      abort();
    }
"""))
r('waitall-wait', 'C07', 'req.c', ("""      MPI_Test(&array_of_requests[i],&flag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[i]);

      if (!flag)
        {
          fprintf(stderr,"MPI_Waitall: request not complete, deadlock\\n");
          abort();
        }
""", """      MPI_Wait(&array_of_requests[i],
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[i]);
"""))
r('testall-break', 'C07', 'req.c', ("""    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
      *flag=0;
""", """    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
      {
        *flag=0;
        return(MPI_SUCCESS);
      }
"""))
r('testall-ready-helper', 'C07', 'req.c', ("""int MPI_Testall(int count, MPI_Request *array_of_requests,
                int *flag, MPI_Status *array_of_statuses)
{""", """static int all_ready(int n, MPI_Request *r)
{
  int i;

  for (i=0; i<n; i++)
    if (r[i]!=MPI_REQUEST_NULL && !((Req *)mpi_handle_to_ptr(r[i]))->complete)
      return 0;
  return 1;
}

int MPI_Testall(int count, MPI_Request *array_of_requests,
                int *flag, MPI_Status *array_of_statuses)
{"""), ("""  *flag = 1;

  /* unless all are complete, leave every request as it is */

  for (i=0; i<count; i++)
  {
    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
      *flag=0;
  }
""", "  *flag = all_ready(count,array_of_requests);\n"))
r('testany-nest', 'C07', 'req.c', ("""      if (array_of_requests[i]==MPI_REQUEST_NULL)
        continue;

      active=1;
      MPI_Test(&array_of_requests[i],flag,status);

      if (*flag)
        {
          *index=i;
          return(MPI_SUCCESS);
        }
""", """      if (array_of_requests[i]!=MPI_REQUEST_NULL)
        {
          active++;
          MPI_Test(&array_of_requests[i],flag,status);
          if (*flag)
            {
              *index=i;
              return(MPI_SUCCESS);
            }
        }
"""))
r('testsome-local', 'C07', 'req.c', ("""  *outcount = 0;
  for (i=0; i<incount; i++)
  {
      if (array_of_requests[i]==MPI_REQUEST_NULL)
          continue;

      active=1;
      flag=0;
      MPI_Test(&array_of_requests[i],&flag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);

      if (flag)
	  array_of_indices[(*outcount)++]=i;
  }

  if (!active)
      *outcount = MPI_UNDEFINED;
""", """  int done=0;

  for (i=0; i<incount; i++)
  {
      if (array_of_requests[i]==MPI_REQUEST_NULL)
          continue;

      active=1;
      MPI_Test(&array_of_requests[i],&flag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[done]);

      if (!flag)
          continue;
      array_of_indices[done]=i;
      done++;
  }

  *outcount = active ? done : MPI_UNDEFINED;
"""))
r('copy-incremental', 'C05 C14', 'copy.c', ("""  for (i = 0; i < n; i++)
  {

#ifdef""", """  int si, di, sk, dk;
  for (i = 0; i < n; i++)
  {
    si = i % src_type->count;
    sk = i / src_type->count;
    di = i % dest_type->count;
    dk = i / dest_type->count;

#ifdef"""), ("""    soffset = src_type->pairs[i % src_type->count].disp + ((i / src_type->count) * src_extent);
    doffset = dest_type->pairs[i % dest_type->count].disp + ((i / dest_type->count) * dest_extent);

    memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
""", """    soffset = sk * src_extent + src_type->pairs[si].disp;
    doffset = dk * dest_extent + dest_type->pairs[di].disp;

    memcpy((char*) dest+doffset, (char*) source+soffset, Simpletype_length(dest_type->pairs[di].type));
"""))
r('copy-while', 'C05', 'copy.c', ("""  for (i = 0; i < n; i++)
  {

#ifdef""", """  i = 0;
  while (i < n)
  {

#ifdef"""), ("""    memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
""", """    memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
    i++;
"""))
r('copy-check-helper', 'C05 C19', 'copy.c', ("""int Pcopy_data2(void *source, int src_count, Datatype src_type,
                void *dest, int dest_count, Datatype dest_type)
{""", """static void check_committed(Datatype a, Datatype b)
{
  if (a->committed && b->committed)
    return;
  fprintf(stderr, "Type not committed\\n");
  exit(-1);
}

int Pcopy_data2(void *source, int src_count, Datatype src_type,
                void *dest, int dest_count, Datatype dest_type)
{"""), ("""  if (!(src_type->committed && dest_type->committed))
  {
    fprintf(stderr, "Type not committed\\n");
    exit(-1);
  }
""", "  check_committed(src_type, dest_type);\n"), ("""  if (!(src_ptr->committed && dest_ptr->committed))
  {
    fprintf(stderr, "Type not committed\\n");
    exit(-1);
  }
""", "  check_committed(src_ptr, dest_ptr);\n"))
r('copymsg-min', 'C05 C24', 'copy.c', ("""  n = src_ptr->count * src_count;
  if (dest_ptr->count * dest_count < n)
    n = dest_ptr->count * dest_count;
""", """  int ns = src_ptr->count * src_count, nd = dest_count * dest_ptr->count;
  n = nd < ns ? nd : ns;
"""))
r('copy-early-zero', 'C05 C14', 'copy.c', ("""  for (i = 0; i < n; i++)
  {

#ifdef""", """  if (n == 0)
    return MPI_SUCCESS;

  for (i = 0; i < n; i++)
  {

#ifdef"""))
r('pack-cursor', 'C12', 'pack.c', ("""      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),
             Simpletype_length(type->pairs[j].type));
      *position += Simpletype_length(type->pairs[j].type);
""", """      int len = Simpletype_length(type->pairs[j].type);
      if (outsize - (*position) < len)
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      char *to = ((char*) outbuf)+(*position), *from = (char*) inbuf + (extent*i) + type->pairs[j].disp;
      memcpy(to, from, len);
      *position = *position + len;
"""))
r('pack-local-position', 'C12', 'pack.c', ("""  int i, j;
  MPI_Aint extent;
  //check that buffer is large enough
  Type_extent(type, &extent);
  for (i = 0; i < incount; i++)
  {
    for (j = 0; j < type->count; j++)
    {
      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),
             Simpletype_length(type->pairs[j].type));
      *position += Simpletype_length(type->pairs[j].type);
    }
  }
""", """  int i, j;
  int pos = *position;
  MPI_Aint extent;
  //check that buffer is large enough
  Type_extent(type, &extent);
  for (i = 0; i < incount; i++)
  {
    for (j = 0; j < type->count; j++)
    {
      if (Simpletype_length(type->pairs[j].type) > outsize - pos)
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+pos, inbuf+type->pairs[j].disp + (extent*i),
             Simpletype_length(type->pairs[j].type));
      pos += Simpletype_length(type->pairs[j].type);
    }
  }
  *position = pos;
"""))
r('packsize-acc', 'C13', 'pack.c', ("""    int i;
    *size = 0;
    //sum up all sizes
    for(i = 0; i < datatype->count; i++)
    {
        *size += Simpletype_length(datatype->pairs[i].type);
    }
    *size *= incount;
""", """    int i = 0;
    MPI_Aint total = 0;
    while (i < datatype->count)
    {
        total += Simpletype_length(datatype->pairs[i].type);
        i++;
    }
    *size = incount * total;
"""))
r('packsize-typesize', 'C13', 'pack.c', ("""    int i;
    *size = 0;
    //sum up all sizes
    for(i = 0; i < datatype->count; i++)
    {
        *size += Simpletype_length(datatype->pairs[i].type);
    }
    *size *= incount;
""", """    int i;
    *size = 0;
    //sum up all sizes, from the last to the first
    for(i = datatype->count - 1; i >= 0; i--)
        *size += Simpletype_length(datatype->pairs[i].type);
    *size *= incount;
"""))
r('list-delete-nested', 'C02', 'list.c', ("""  if (item == list->head)
    list->head = item->next;
  else
    item->prev->next = item->next;

  /* set pointer of following listitem */

  if (item == list->tail)
    list->tail = item->prev;
  else
    item->next->prev = item->prev;

  AP_listitem_free(item);
  (list->count)--;
""", """  pListitem before = item->prev, after = item->next;

  list->count = list->count - 1;

  if (after)
    after->prev = before;
  else
    list->tail = before;

  if (before)
    before->next = after;
  else
    list->head = after;

  AP_listitem_free(item);
"""))
r('list-free-for', 'C02', 'list.c', ("""  count=0;
  cur=list->head;

  while(cur)
    {
      next=cur->next;

      AP_listitem_free(cur);
      count++;

      cur=next;
    }
""", """  count=0;
  for (cur=list->head; cur!=NULL; cur=next, count++)
    {
      next=cur->next;
      AP_listitem_free(cur);
    }
"""))
r('list-append-reorder', 'C02', 'list.c', ("""  if (list->tail)
    list->tail->next=new;
  else
    list->head=new;

  list->tail=new;
  (list->count)++;
""", """  ++list->count;
  if (!list->head)
    list->head=new;
  else
    list->tail->next=new;
  list->tail=new;
"""))
r('gather-nested', 'C14 C15', 'collective.c', ("""  if (sendbuf==MPI_IN_PLACE)
    return(MPI_SUCCESS);

  if (root==MPI_ROOT)
    return(MPI_SUCCESS);

  if (root!=0)
    {
      fprintf(stderr,"MPI_Gather: bad root = %d\\n",root);
      abort();
    }

  copy_data2(sendbuf, sendcount, sendtype,
             recvbuf, recvcount, recvtype);
""", """  if (sendbuf!=MPI_IN_PLACE && root!=MPI_ROOT)
    {
      if (root)
        {
          fprintf(stderr,"MPI_Gather: bad root = %d\\n",root);
          abort();
        }

      copy_data2(sendbuf, sendcount, sendtype,
                 recvbuf, recvcount, recvtype);
    }
"""))
r('gatherv-helper', 'C14 C15', 'collective.c', ("""int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
		void* recvbuf, int *recvcounts, int *displs,""", """static void *block_at(void *buf, int displ, MPI_Datatype type)
{
  MPI_Aint ext;

  MPI_Type_extent(type, &ext);
  return (char*)buf + displ*ext;
}

int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
		void* recvbuf, int *recvcounts, int *displs,"""), ("""  MPI_Type_extent(recvtype, &rt_extent);
  offset=displs[0]*rt_extent;

  copy_data2(sendbuf, sendcount, sendtype,
             (char*)recvbuf+offset, recvcounts[0], recvtype);
""", """  copy_data2(sendbuf, sendcount, sendtype,
             block_at(recvbuf, displs[0], recvtype), recvcounts[0], recvtype);
"""))
r('handles-pop-helper', 'C01', 'handles.c', ("""void mpi_alloc_handle(int *handle, void **data)
{
  Handleitem *new;
""", """static void give(Handleitem *new, int *handle, void **data)
{
  nextfree= new->next;
  new->next=NULL;
  *data= &(new->data);
  *handle= new->handle;
}

void mpi_alloc_handle(int *handle, void **data)
{
  Handleitem *new;
"""), ("""      new= nextfree;
      nextfree= nextfree->next;
      new->next=NULL;

      *handle= new->handle;
      *data= &(new->data);

      return;
""", """      give(nextfree,handle,data);
      return;
"""), ("""  nextfree= new->next;
  new->next=NULL;

  *handle= new->handle;
  *data= &(new->data);

  nblocks++;""", """  give(new,handle,data);

  nblocks++;"""))
r('handles-init-order', 'C01', 'handles.c', ("""  for (i=0; i<BLOCK_ITEMS-1; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = &b[i+1];
    }

  b[BLOCK_ITEMS-1].handle= HANDLE(block,BLOCK_ITEMS-1);
  b[BLOCK_ITEMS-1].next=0;
""", """  for (i=0; i<BLOCK_ITEMS; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = i<BLOCK_ITEMS-1 ? &b[i+1] : NULL;
    }
"""))
r('handles-divmod', 'C01', 'handles.c', ("""#define HANDLE_TO_BLOCK(x)   ( (x) >> 8)
#define HANDLE_TO_INDEX(x)   ( (x) & 0xff )
#define HANDLE(block,index)  ( (block << 8) | (index) )""", """#define HANDLE_TO_BLOCK(x)   ( (x) / BLOCK_ITEMS)
#define HANDLE_TO_INDEX(x)   ( (x) % BLOCK_ITEMS )
#define HANDLE(block,index)  ( (block) * BLOCK_ITEMS + (index) )"""))
r('struct-for', 'C09 C10', 'type.c', ("""  i = 0;         //old type's index
  newcount = 0;  //new type's index

  while (i < count)
  {
    tmp_offset = 0;
""", """  newcount = 0;  //new type's index

  for (i = 0; i < count; i++)
  {
"""), ("""      }
    }
    i++;
  }
  //type is NOT committed""", """      }
    }
  }
  //type is NOT committed"""))
r('struct-hoist', 'C09 C10', 'type.c', ("""      for (j = 0; j < blocklens[i]; j++)
      {
        //Copy the old type's typemap and merge into the new type
        //by a "flattening" process
        Type_extent((Datatype) oldtypes_ptr[i], &extent);
""", """      Type_extent(temp2, &extent);
      for (j = 0; j < blocklens[i]; j++)
      {
"""), ("""          Copy_type( (typepair*) oldtypes_ptr[i]->pairs+k,
                     (typepair*) (temp->pairs+newcount));


          ((typepair*) temp->pairs+(newcount))->disp +=
                       displacements[i] + tmp_offset;
          newcount++;
""", """          temp->pairs[newcount].type = temp2->pairs[k].type;
          temp->pairs[newcount].disp = temp2->pairs[k].disp + displacements[i] + tmp_offset;
          newcount++;
"""))
r('struct-marker-helper', 'C09 C10', 'type.c', ("""int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                Datatype *oldtypes_ptr,     Datatype *newtype)
{""", """static int is_marker(Datatype t, Simpletype kind)
{
  return t->count > 0 && t->pairs[0].type == kind;
}

int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                Datatype *oldtypes_ptr,     Datatype *newtype)
{"""), ("if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_LOWER)", "if (is_marker(temp2, SIMPLE_LOWER))"),
  ("else if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_UPPER)", "else if (is_marker(temp2, SIMPLE_UPPER))"),
  ("""    if (!(temp2->count > 0 &&
          (temp2->pairs[0].type == SIMPLE_LOWER ||
           temp2->pairs[0].type == SIMPLE_UPPER)))
""", "    if (!is_marker(temp2, SIMPLE_LOWER) && !is_marker(temp2, SIMPLE_UPPER))\n"))
r('calc-if', 'C10', 'type.c', ("""    min_disp = tp->disp < min_disp
                ? tp->disp
                : min_disp;
""", """    if (min_disp > tp->disp)
      min_disp = tp->disp;
"""))
r('calc-early', 'C10', 'type.c', ("""  return type->count > 0 ? min_disp : 0;""", """  if (type->count == 0)
    return 0;
  return min_disp;"""))
r('contig-vector', 'C09', 'type.c', ("""    //each copy is strided by the extent of the datatype.
    // Calculate that here.
    Type_extent(oldtype, &extent);
    for (i = 0; i < count; i++)
    {
        blocklengths[i] = 1;
        offsets[i] = extent * i;
        oldtypes[i] = oldtype;
    }
""", """    for (i = count - 1; i >= 0; i--)
        oldtypes[i] = oldtype;
    Type_extent(oldtype, &extent);
    for (i = 0; i < count; i++)
    {
        offsets[i] = i * extent;
        blocklengths[i] = 1;
    }
"""))
r('contig-accumulate', 'C09', 'type.c', ("""    for (i = 0; i < count; i++)
    {
        blocklengths[i] = 1;
        offsets[i] = extent * i;
        oldtypes[i] = oldtype;
    }
""", """    MPI_Aint at = 0;
    for (i = 0; i < count; i++)
    {
        blocklengths[i] = 1;
        offsets[i] = at;
        oldtypes[i] = oldtype;
        at += extent;
    }
"""))
r('indexed-hoist', 'C09', 'type.c', ("""    for (i = 0; i < count; i++)
    {
        Type_extent(oldtype, &extent);
        bdisps[i] = displacements[i] * extent;
    }
""", """    Type_extent(oldtype, &extent);
    for (i = 0; i < count; i++)
        bdisps[i] = extent * displacements[i];
"""))
r('extent-padding', 'C10', 'type.c', ("""    if (mod == 0)
      epsilon = 0;
    else
      epsilon = epsilon - mod;
    *extent = (datatype->ub - datatype->lb) + epsilon;
""", """    *extent = datatype->ub - datatype->lb;
    if (mod != 0)
      *extent += epsilon - mod;
"""))
r('size-acc', 'C10', 'type.c', ("""    *size = 0;
    for (i=0; i < type->count; i++)
        *size += Simpletype_length(type->pairs[i].type);
""", """    int total = 0;
    for (i=0; i < type->count; i++)
        total = total + Simpletype_length(type->pairs[i].type);
    *size = total;
"""))
r('wait-flag', 'C06 C19', 'req.c', ("""  MPI_Test(request,&flag,status);

  if (!flag)
    {
      fprintf(stderr,"MPI_Wait: request not complete, deadlock\\n");
      abort();
    }

  return(MPI_SUCCESS);
""", """  MPI_Test(request,&flag,status);

  if (flag)
    return(MPI_SUCCESS);

  fprintf(stderr,"MPI_Wait: request not complete, deadlock\\n");
  abort();
"""))
r('reqfree-flip', 'C23 C06', 'req.c', ("""  if (r && !r->complete)
    r->freed=*req;
  else
    mpi_free_handle(*req);
""", """  if (r==NULL || r->complete)
    mpi_free_handle(*req);
  else
    r->freed=*req;
"""))

# ---------------------------------------------------------------- second batch
r('cart-while', 'C18', 'cart.c', ("""  for (i = 0; i < ndims; i++)
    if (dims[i] > 1)
    {
      printf("MPI_Cart_create: Greater dimension than no. of procs\\n");
      abort();
    }

  MPI_Comm_dup(comm_old, comm_cart);
""", """  int toobig = 0;

  for (i = ndims - 1; i >= 0; i--)
    if (dims[i] > 1)
      toobig = 1;

  if (toobig)
    {
      printf("MPI_Cart_create: Greater dimension than no. of procs\\n");
      abort();
    }

  MPI_Comm_dup(comm_old, comm_cart);
"""))
r('cart-split', 'C18', 'cart.c', ("""  for (i=0;i<maxdims;i++)
  {
    dims[i]=1;
    coords[i]=0;
  }
""", """  int *end = dims + maxdims;

  for (i=maxdims-1;i>=0;i--)
    coords[i]=0;
  while (dims < end)
    *dims++ = 1;
"""))
r('cart-memset', 'C18', 'cart.c', ("""  for (i=0;i<maxdims;i++)
    coords[i]=0;

  return MPI_SUCCESS;
""", """  i = 0;
  while (i < maxdims)
    {
      coords[i]=0;
      i++;
    }

  return MPI_SUCCESS;
"""))
r('dims-helper', 'C18', 'cart.c', ("""int MPI_Dims_create(int nnodes, int ndims, int *dims)
""", """static void fill(int *p, int n, int v)
{
  int k;
  for (k=0; k<n; k++)
    p[k]=v;
}

int MPI_Dims_create(int nnodes, int ndims, int *dims)
"""), ("""  for (i=0; i<ndims; i++)
    dims[i] = 1;
""", """  fill(dims, ndims, 1);
"""))
r('group-helper', 'C16', 'group.c', ("""int MPI_Group_incl(MPI_Group group, int n, int *ranks, MPI_Group *newgroup)
{

  if (group==MPI_GROUP_NULL)
    {
      fprintf(stderr,"MPI_Group_incl: null group passed in\\n");
      abort();
    }

  if (group==MPI_GROUP_EMPTY || n==0)
    *newgroup=MPI_GROUP_EMPTY;
  else
    if (n==1 && ranks[0]==0)
      *newgroup=MPI_GROUP_ONE;
    else
      {
	fprintf(stderr,"MPI_Group_incl: more than 1 proc in group\\n");
	abort();
      }

  return(MPI_SUCCESS);
}
""", """static void need_group(MPI_Group g, const char *who)
{
  if (g==MPI_GROUP_NULL)
    {
      fprintf(stderr,"%s: null group passed in\\n", who);
      abort();
    }
}

int MPI_Group_incl(MPI_Group group, int n, int *ranks, MPI_Group *newgroup)
{
  need_group(group, "MPI_Group_incl");

  if (group==MPI_GROUP_EMPTY || n==0)
    {
      *newgroup=MPI_GROUP_EMPTY;
      return(MPI_SUCCESS);
    }
  if (n!=1 || ranks[0]!=0)
    {
      fprintf(stderr,"MPI_Group_incl: more than 1 proc in group\\n");
      abort();
    }
  *newgroup=MPI_GROUP_ONE;

  return(MPI_SUCCESS);
}
"""))
r('translate-two-loops', 'C16', 'group.c', ("""  for (i=0; i<n; i++)
    {
      if (ranks1[i]!=0)
	{
	  fprintf(stderr,"MPI_Group_translate_ranks: bad input rank: %d\\n",
		  ranks1[i]);
	  abort();
	}

      if (group2!=MPI_GROUP_EMPTY)
	ranks2[i]=ranks1[i];
      else
	ranks2[i]=MPI_UNDEFINED;
    }
""", """  int there = (group2==MPI_GROUP_EMPTY) ? MPI_UNDEFINED : 0;

  i=0;
  do
    {
      if (ranks1[i])
	{
	  fprintf(stderr,"MPI_Group_translate_ranks: bad input rank: %d\\n",
		  ranks1[i]);
	  abort();
	}
      ranks2[i]=there;
    } while (++i<n);
"""))
r('diff-demorgan', 'C16', 'group.c', ("""  if (group1==MPI_GROUP_EMPTY || group2==MPI_GROUP_ONE)
    *newgroup=MPI_GROUP_EMPTY;
  else
    *newgroup=MPI_GROUP_ONE;
""", """  *newgroup = (group1==MPI_GROUP_ONE && group2==MPI_GROUP_EMPTY) ? MPI_GROUP_ONE : MPI_GROUP_EMPTY;
"""))
r('getcount-ternary', 'C24', 'getcount.c', ("""  if (dt_ptr->count==0)
    *count = 0;
  else if (status->get_count % dt_ptr->count != 0)
    *count = MPI_UNDEFINED;
  else
    *count = status->get_count / dt_ptr->count;
""", """  int per = dt_ptr->count, got = status->get_count, whole;

  if (!per)
    {
      *count = 0;
      return(MPI_SUCCESS);
    }
  whole = got / per;
  *count = (whole * per == got) ? whole : MPI_UNDEFINED;
"""))
r('comm-free-helper', 'C17 C23', 'comm.c', ("""int MPI_Comm_free(MPI_Comm *comm)
{
""", """static void drop_list(pList l, const char *what)
{
  int size=AP_list_size(l);
  if (size)
    fprintf(stderr,"MPI_Comm_free: warning: %d pending %s reqs\\n", size, what);
  AP_list_free(l);
}

int MPI_Comm_free(MPI_Comm *comm)
{
"""), ("""  size=AP_list_size(sendlist);
  if (size!=0)
    fprintf(stderr,"MPI_Comm_free: warning: %d pending send reqs\\n",
	    size);
  AP_list_free(sendlist);


  size=AP_list_size(recvlist);
  if (size!=0)
    fprintf(stderr,"MPI_Comm_free: warning: %d pending receive reqs\\n",
	    size);
  AP_list_free(recvlist);
""", """  drop_list(recvlist, "receive");
  drop_list(sendlist, "send");
"""))
r('comm-new-reorder', 'C17 C01', 'comm.c', ("""  mpi_alloc_handle(&chandle,(void **) &cptr);

  cptr->sendlist=AP_list_new();
  cptr->recvlist=AP_list_new();

  cptr->num=num++;
""", """  pList s, r;

  r=AP_list_new();
  s=AP_list_new();
  mpi_alloc_handle(&chandle,(void **) &cptr);
  cptr->num=num;
  num+=1;
  cptr->recvlist=r;
  cptr->sendlist=s;
"""))
r('split-negate', 'C17', 'comm.c', ("""  if (color==MPI_UNDEFINED)
    *newcomm=MPI_COMM_NULL;
  else
    *newcomm= mpi_comm_new();
""", """  MPI_Comm c=MPI_COMM_NULL;
  if (color!=MPI_UNDEFINED)
    c=mpi_comm_new();
  *newcomm=c;
"""))
r('search-for', 'C02 C03', 'list.c', ("""  cur=list->head;

  while (cur)
    {
      if ( (*func)(cur->data,fixed_data) )
        return(cur);

      cur=cur->next;
    }

  return(NULL);
""", """  for (cur=list->head; cur != NULL; cur=cur->next)
    if (func(cur->data,fixed_data))
      break;

  return(cur);
"""))
r('search-for2', 'C02', 'list.c', ("""  while (cur)
    {
      if (cur->data == data)
        return(cur);

      cur=cur->next;
    }

  return(NULL);
""", """  while (cur && cur->data != data)
    cur=cur->next;

  return(cur);
"""))
r('list-prepend-reorder', 'C02', 'list.c', ("""  if (list->head)
    list->head->prev=new;

  list->head=new;
  if (!list->tail)
    list->tail=new;

  (list->count)++;
""", """  if (list->head == NULL)
    list->tail=new;
  else
    list->head->prev=new;
  list->count = list->count + 1;
  list->head=new;
"""))
r('free-handle-helper', 'C01', 'handles.c', ("""void mpi_free_handle(int handle)
{
  int block;
  int index;
  Handleitem *item;
""", """static Handleitem *item_of(int handle)
{
  int block=HANDLE_TO_BLOCK(handle);
  int index=HANDLE_TO_INDEX(handle);

#ifdef CHECKS
  verify_handle(handle,block,index);
#endif

  return(&(blocks[block][index]));
}

void mpi_free_handle(int handle)
{
  Handleitem *item;
"""), ("""  block=HANDLE_TO_BLOCK(handle);
  index=HANDLE_TO_INDEX(handle);

#ifdef CHECKS
  verify_handle(handle,block,index);
#endif

  item=&(blocks[block][index]);
""", """  item=item_of(handle);
"""))
r('destroy-while', 'C01 C20', 'handles.c', ("""  if (need_to_init)
    return;

  for (i=1; i<nblocks; i++)          /* blocks[0] is statically allocated */
    mpi_free(blocks[i]);

  need_to_init=1;
""", """  if (!need_to_init)
    {
      need_to_init=1;
      i=nblocks;
      while (--i > 0)
        mpi_free(blocks[i]);
    }
"""))
r('init-block-ptr', 'C01', 'handles.c', ("""  for (i=0; i<BLOCK_ITEMS-1; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = &b[i+1];
    }

  b[BLOCK_ITEMS-1].handle= HANDLE(block,BLOCK_ITEMS-1);
  b[BLOCK_ITEMS-1].next=0;
""", """  for (i=0; i<BLOCK_ITEMS; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = (i==BLOCK_ITEMS-1) ? NULL : &b[i+1];
    }
"""))
r('alltoallv-inline', 'C14 C15', 'collective.c', ("""  send_offset=sdispls[0]*st_extent;
  recv_offset=rdispls[0]*rt_extent;

  copy_data2((char*)sendbuf+send_offset, sendcounts[0], sendtype,
             (char*)recvbuf+recv_offset, recvcounts[0], recvtype);
""", """  char *from=(char*)sendbuf, *to=(char*)recvbuf;
  int n=*sendcounts, m=*recvcounts;

  from+=st_extent*sdispls[0];
  to+=rt_extent*rdispls[0];
  copy_data2(from, n, sendtype, to, m, recvtype);
"""))
r('unpack-local', 'C12', 'pack.c', ("""  int i, j;
  MPI_Aint extent;

  Type_extent(type, &extent);

  for (i = 0; i < outcount; i++)
  {
    for (j = 0; j < type->count; j++)
    {
      if (Simpletype_length(type->pairs[j].type) > insize - (*position))
      {
        printf("MPI_Unpack: Data exceeds buffer size\\n");
	exit(1);
      }
""", """  int i, j, len;
  MPI_Aint extent;
  char *item = outbuf;

  Type_extent(type, &extent);

  for (i = 0; i < outcount; i++, item += extent)
  {
    for (j = 0; j < type->count; j++)
    {
      len = Simpletype_length(type->pairs[j].type);
      if (len > insize - *position)
      {
        printf("MPI_Unpack: Data exceeds buffer size\\n");
	exit(1);
      }
"""))
r('copy-indices', 'C05 C14', 'copy.c', ("""  for (i = 0; i < n; i++)
  {

#ifdef TYPE_CHECKING""", """  int si = 0, di = 0;
  char *s = source, *d = dest;

  for (i = 0; i < n; i++)
  {
    if (si == src_type->count) { si = 0; s += src_extent; }
    if (di == dest_type->count) { di = 0; d += dest_extent; }
    memcpy(d + dest_type->pairs[di].disp, s + src_type->pairs[si].disp, Simpletype_length(dest_type->pairs[di].type));
    si++;
    di++;
    continue;

#ifdef TYPE_CHECKING"""))
r('copy-pairs', 'C05', 'copy.c', ("""    soffset = src_type->pairs[i % src_type->count].disp + ((i / src_type->count) * src_extent);
    doffset = dest_type->pairs[i % dest_type->count].disp + ((i / dest_type->count) * dest_extent);

    memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
""", """    typepair *sp = &src_type->pairs[i % src_type->count], *dp = &dest_type->pairs[i % dest_type->count];
    long sitem = i / src_type->count, ditem = i / dest_type->count;

    soffset = sitem * src_extent + sp->disp;
    doffset = ditem * dest_extent + dp->disp;

    memcpy((char*)dest+doffset, (char*)source+soffset, Simpletype_length(dp->type));
"""))
r('library-version-loop', 'C20', 'mpi.c', ("""  memset(version+(*resultlen),' ',MPI_MAX_LIBRARY_VERSION_STRING-(*resultlen));
""", """  int k;
  for (k=*resultlen; k<MPI_MAX_LIBRARY_VERSION_STRING; k++)
    version[k]=' ';
"""))
r('procname-else', 'C20', 'mpi.c', ("""  int ret;

  ret=gethostname(name,MPI_MAX_PROCESSOR_NAME);

  if (ret!=0)
    strncpy""", """  if (gethostname(name,MPI_MAX_PROCESSOR_NAME) != 0)
    strncpy"""))
r('error-string-snprintf', 'C20', 'mpi.c', ("""  sprintf(string,"MPI Error: code %d\\n",errorcode);
  *resultlen=strlen(string);
""", """  *resultlen=sprintf(string,"MPI Error: code %d\\n",errorcode);
"""))
r('c-status-ternary', 'C21', 'mpi.c', ("""  if (status==f_MPI_STATUS_IGNORE)
    return(MPI_STATUS_IGNORE);

  return((MPI_Status *)status);
""", """  return(status!=f_MPI_STATUS_IGNORE ? (MPI_Status *)status : MPI_STATUS_IGNORE);
"""))
r('sendrecv-isend', 'C24 C03', 'send.c', ("""  MPI_Request request;


  MPI_Irecv(recvbuf, recvcount, recvtype, source, recvtag, comm, &request);

  MPI_Send(sendbuf, sendcount, sendtype, dest, sendtag, comm);

  MPI_Wait(&request,status);
""", """  MPI_Request rreq, sreq;


  MPI_Irecv(recvbuf, recvcount, recvtype, source, recvtag, comm, &rreq);

  MPI_Isend(sendbuf, sendcount, sendtype, dest, sendtag, comm, &sreq);

  MPI_Wait(&sreq,MPI_STATUS_IGNORE);
  MPI_Wait(&rreq,status);
"""))
r('waitany-while', 'C07', 'req.c', ("""      active=1;
      MPI_Test(&array_of_requests[i],flag,status);

      if (*flag)
        {
          *index=i;
          return(MPI_SUCCESS);
        }
    }

  *index=MPI_UNDEFINED;
""", """      active=1;
      *index=i;
      MPI_Test(&array_of_requests[i],flag,status);

      if (*flag)
        break;
    }

  if (i<count)
    return(MPI_SUCCESS);

  *index=MPI_UNDEFINED;
"""))

# ---------------------------------------------------------------- third batch
r('calc-pointer-end', 'C10', 'type.c', ("""  for(i =0; i < type->count; i++)
  {
    tp =  type->pairs+i;
    min_disp""", """  typepair *end = type->pairs + type->count;
  for (tp = type->pairs; tp < end; tp++)
  {
    min_disp"""))
r('calc-pointer-ne', 'C10', 'type.c', ("""  for(i = 0; i < type->count; i++)
  {
    tp = type->pairs+i;
    max_disp""", """  typepair *end = type->pairs + type->count;
  for (tp = type->pairs; tp != end; ++tp)
  {
    max_disp"""))
r('size-pointer', 'C10', 'type.c', ("""    int i;
    *size = 0;
    for (i=0; i < type->count; i++)
        *size += Simpletype_length(type->pairs[i].type);
""", """    int total = 0, left = type->count;
    typepair *p = type->pairs;
    while (left-- > 0)
        total += Simpletype_length((p++)->type);
    *size = total;
"""))
r('struct-assign', 'C09 C10', 'type.c', ("""          Copy_type( (typepair*) oldtypes_ptr[i]->pairs+k,
                     (typepair*) (temp->pairs+newcount));


          ((typepair*) temp->pairs+(newcount))->disp +=
                       displacements[i] + tmp_offset;
          newcount++;
""", """          temp->pairs[newcount] = temp2->pairs[k];
          temp->pairs[newcount].disp += displacements[i] + tmp_offset;
          newcount++;
"""))
r('struct-field-assign', 'C09 C10', 'type.c', ("""          Copy_type( (typepair*) oldtypes_ptr[i]->pairs+k,
                     (typepair*) (temp->pairs+newcount));


          ((typepair*) temp->pairs+(newcount))->disp +=
                       displacements[i] + tmp_offset;
          newcount++;
""", """          typepair *to = &temp->pairs[newcount++];
          to->type = temp2->pairs[k].type;
          to->disp = temp2->pairs[k].disp + displacements[i] + tmp_offset;
"""))
r('struct-two-prepass', 'C09 C10', 'type.c', ("""      if (temp2->o_ub)
        //same as above, but ub
        override_upper = 1;

      simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
    }
  }
""", """      if (temp2->o_ub)
        //same as above, but ub
        override_upper = 1;
    }
  }
  for (i = 0; i < count; i++)
  {
    temp2 = oldtypes_ptr[i];
    if (temp2->count > 0 && (temp2->pairs[0].type == SIMPLE_LOWER || temp2->pairs[0].type == SIMPLE_UPPER))
      continue;
    simpletype_count += blocklens[i] * temp2->count;
  }
"""))
r('struct-cursor', 'C09', 'type.c', ("""          Copy_type( (typepair*) oldtypes_ptr[i]->pairs+k,
                     (typepair*) (temp->pairs+newcount));


          ((typepair*) temp->pairs+(newcount))->disp +=
                       displacements[i] + tmp_offset;
          newcount++;
""", """          Copy_type(&temp2->pairs[k], to);
          to->disp += displacements[i] + tmp_offset;
          to++;
"""), ("""  newcount = 0;  //new type's index
""", """  typepair *to = temp->pairs;
"""))
r('hvector-running', 'C09', 'type.c', ("""    for (i = 0; i < count; i++)
    {
        blocklengths[i] = blocklen;
        offsets[i] = stride * i;
        oldtypes[i] = oldtype;
    }
""", """    MPI_Aint at = 0;
    for (i = 0; i < count; i++, at += stride)
    {
        oldtypes[i] = oldtype;
        offsets[i] = at;
        blocklengths[i] = blocklen;
    }
"""))
r('hindexed-down', 'C09', 'type.c', ("""    for (i = 0; i < count; i++)
    {
        oldtypes[i] = oldtype;
    }

    return Type_struct(count, blocklens, displacements, oldtypes, newtype);""", """    for (i = count - 1; i >= 0; i--)
        oldtypes[i] = oldtype;

    return Type_struct(count, blocklens, displacements, oldtypes, newtype);"""))
r('typefree-else', 'C23 C01', 'type.c', ("""  if (type_ptr->pending > 0)
  {
    type_ptr->freed = 1;
    *datatype = MPI_DATATYPE_NULL;
    return MPI_SUCCESS;
  }

  free(type_ptr);
  type_ptr = MPI_DATATYPE_NULL;

  mpi_free_handle(*datatype);
  *datatype""", """  if (type_ptr->pending > 0)
    type_ptr->freed = 1;
  else
  {
    mpi_free_handle(*datatype);
    free(type_ptr);
  }
  *datatype"""))
r('typerelease-early', 'C23', 'type.c', ("""  type_ptr->pending--;

  if (type_ptr->pending == 0 && type_ptr->freed)
    MPI_Type_free(&datatype);
""", """  if (--type_ptr->pending > 0)
    return;
  if (type_ptr->freed)
    MPI_Type_free(&datatype);
"""))
r('mpistruct-while', 'C09', 'type.c', ("""    for (i = 0; i < count; i++)
    {
        oldtypes_ptr[i] = *(Datatype*) mpi_handle_to_datatype(oldtypes[i]);
    }

    mpi_alloc_handle(newtype, (void**) &newtype_ptr);

    return Type_struct(count, blocklens, displacements,
                       oldtypes_ptr, newtype_ptr);""", """    Datatype *out = oldtypes_ptr;
    MPI_Datatype *in = oldtypes;

    for (i = count; i > 0; i--)
        *out++ = *(Datatype*) mpi_handle_to_datatype(*in++);

    mpi_alloc_handle(newtype, (void**) &newtype_ptr);

    return Type_struct(count, blocklens, displacements,
                       oldtypes_ptr, newtype_ptr);"""))
r('incl-early', 'C16', 'group.c', ("""  if (group==MPI_GROUP_EMPTY || n==0)
    *newgroup=MPI_GROUP_EMPTY;
  else
    if (n==1 && ranks[0]==0)
      *newgroup=MPI_GROUP_ONE;
    else
      {
	fprintf(stderr,"MPI_Group_incl: more than 1 proc in group\\n");
	abort();
      }

  return(MPI_SUCCESS);""", """  if (n==0 || group==MPI_GROUP_EMPTY)
    {
      *newgroup=MPI_GROUP_EMPTY;
      return(MPI_SUCCESS);
    }

  if (n!=1 || ranks[0]!=0)
    {
      fprintf(stderr,"MPI_Group_incl: more than 1 proc in group\\n");
      abort();
    }

  *newgroup=MPI_GROUP_ONE;
  return(MPI_SUCCESS);"""))
r('translate-hoist', 'C16', 'group.c', ("""      if (group2!=MPI_GROUP_EMPTY)
	ranks2[i]=ranks1[i];
      else
	ranks2[i]=MPI_UNDEFINED;
""", """      ranks2[i]=value;
"""), ("""  for (i=0; i<n; i++)
    {
      if (ranks1[i]!=0)
""", """  int value = group2==MPI_GROUP_EMPTY ? MPI_UNDEFINED : 0;

  for (i=0; i<n; i++)
    {
      if (ranks1[i]!=0)
"""))
r('translate-pointers', 'C16', 'group.c', ("""  for (i=0; i<n; i++)
    {
      if (ranks1[i]!=0)
	{
	  fprintf(stderr,"MPI_Group_translate_ranks: bad input rank: %d\\n",
		  ranks1[i]);
	  abort();
	}

      if (group2!=MPI_GROUP_EMPTY)
	ranks2[i]=ranks1[i];
      else
	ranks2[i]=MPI_UNDEFINED;
    }
""", """  int *end = ranks1 + n;
  while (ranks1 < end)
    {
      if (*ranks1!=0)
	{
	  fprintf(stderr,"MPI_Group_translate_ranks: bad input rank: %d\\n",
		  *ranks1);
	  abort();
	}

      *ranks2 = group2!=MPI_GROUP_EMPTY ? *ranks1 : MPI_UNDEFINED;
      ranks1++;
      ranks2++;
    }
"""))
r('commfree-loop', 'C17 C23', 'comm.c', ("""  size=AP_list_size(sendlist);
  if (size!=0)
    fprintf(stderr,"MPI_Comm_free: warning: %d pending send reqs\\n",
	    size);
  AP_list_free(sendlist);


  size=AP_list_size(recvlist);
  if (size!=0)
    fprintf(stderr,"MPI_Comm_free: warning: %d pending receive reqs\\n",
	    size);
  AP_list_free(recvlist);
""", """  pList lists[2];
  const char *what[2] = { "send", "receive" };
  int i;
  lists[0] = sendlist;
  lists[1] = recvlist;
  for (i=0; i<2; i++)
    {
      size=AP_list_size(lists[i]);
      if (size!=0)
        fprintf(stderr,"MPI_Comm_free: warning: %d pending %s reqs\\n", size, what[i]);
      AP_list_free(lists[i]);
    }
"""))
r('intercomm-direct', 'C17', 'comm.c', ("""    MPI_Comm_dup(MPI_COMM_WORLD, newintercomm);
""", """    *newintercomm = mpi_comm_new();
"""))
r('commcreate-ternary', 'C17', 'comm.c', ("""  if (group==MPI_GROUP_NULL || group==MPI_GROUP_EMPTY)
    *newcomm= MPI_COMM_NULL;
  else
    *newcomm=mpi_comm_new();
""", """  *newcomm = (group!=MPI_GROUP_NULL && group!=MPI_GROUP_EMPTY) ? mpi_comm_new() : MPI_COMM_NULL;
"""))
r('testany-index', 'C07', 'req.c', ("""  for (i=0; i<count; i++)
    {
      if (array_of_requests[i]==MPI_REQUEST_NULL)
        continue;

      active=1;
      MPI_Test(&array_of_requests[i],flag,status);

      if (*flag)
        {
          *index=i;
          return(MPI_SUCCESS);
        }
    }

  *index=MPI_UNDEFINED;
""", """  *index=MPI_UNDEFINED;

  for (i=0; i<count; i++)
    {
      if (array_of_requests[i]!=MPI_REQUEST_NULL)
        {
          active++;
          MPI_Test(array_of_requests+i,flag,status);
          if (*flag)
            {
              *index=i;
              return(MPI_SUCCESS);
            }
        }
    }
"""))
r('testsome-statusptr', 'C07', 'req.c', ("""      active=1;
      flag=0;
      MPI_Test(&array_of_requests[i],&flag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);

      if (flag)
	  array_of_indices[(*outcount)++]=i;
""", """      MPI_Status *st = MPI_STATUS_IGNORE;

      if (array_of_statuses!=MPI_STATUSES_IGNORE)
        st = array_of_statuses + *outcount;
      active++;
      MPI_Test(&array_of_requests[i],&flag,st);

      if (!flag)
        continue;
      array_of_indices[*outcount]=i;
      *outcount = *outcount + 1;
"""))
r('testall-count', 'C07', 'req.c', ("""  *flag = 1;

  /* unless all are complete, leave every request as it is */

  for (i=0; i<count; i++)
  {
    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
      *flag=0;
  }
""", """  int pending = 0;

  for (i=0; i<count; i++)
  {
    Req *r;
    if (array_of_requests[i]==MPI_REQUEST_NULL)
      continue;
    r = mpi_handle_to_ptr(array_of_requests[i]);
    if (!r->complete)
      pending++;
  }
  *flag = (pending == 0);
"""))
r('testall-waitall', 'C07', 'req.c', ("""  for (i=0; i<count && *flag; i++)
  {
      MPI_Test(&array_of_requests[i],&iflag,
               array_of_statuses==MPI_STATUSES_IGNORE ?
               MPI_STATUS_IGNORE : &array_of_statuses[i]);

      if (!iflag)
        *flag=0;
  }
""", """  (void) iflag;
  if (*flag)
    return(MPI_Waitall(count,array_of_requests,array_of_statuses));
"""))
r('iprobe-negate', 'C08', 'probe.c', ("""  *flag= (match==NULL ? 0:1 );

  if (*flag)
    {
      sreq=(Req *)AP_listitem_data(match);

      if (status!=MPI_STATUS_IGNORE)
	{
	  status->MPI_SOURCE=0  ;
	  status->MPI_TAG= sreq->tag;
	  status->get_count= sreq->count *
	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
	}
    }
""", """  *flag= match!=NULL;

  if (!match || status==MPI_STATUS_IGNORE)
    return(MPI_SUCCESS);

  sreq=(Req *)AP_listitem_data(match);
  Datatype dt=*(Datatype*)mpi_handle_to_datatype(sreq->type);
  status->get_count= dt->count * sreq->count;
  status->MPI_TAG= sreq->tag;
  status->MPI_SOURCE=0;
"""))
r('isend-fields-first', 'C03 C23', 'send.c', ("""  sreq->freed=MPI_REQUEST_NULL;

""", """  sreq->freed=MPI_REQUEST_NULL;
  sreq->buf=buf;
  sreq->count=count;
  sreq->type=datatype;
  sreq->tag=tag;

"""), ("""  sreq->buf=buf;
  sreq->count=count;
  sreq->type=datatype;
  Type_hold(datatype);
  sreq->tag=tag;
  sreq->complete=0;
""", """  Type_hold(datatype);
  sreq->complete=0;
"""))
r('irecv-count-local', 'C03 C24', 'recv.c', ("""      rreq->count=
        copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
      Type_release(sreq->type);
""", """      int got=copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);

      Type_release(sreq->type);
      rreq->count=got;
"""))
r('recv-testcall', 'C06 C19', 'recv.c', ("""  MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
  MPI_Wait(&request,status);

  return(MPI_SUCCESS);""", """  int err=MPI_Irecv(buf,count,datatype,source,tag,comm,&request);

  if (err!=MPI_SUCCESS)
    return(err);
  return(MPI_Wait(&request,status));"""))
r('getcount-divmod', 'C24', 'getcount.c', ("""  if (dt_ptr->count==0)
    *count = 0;
  else if (status->get_count % dt_ptr->count != 0)
    *count = MPI_UNDEFINED;
  else
    *count = status->get_count / dt_ptr->count;
""", """  int per = dt_ptr->count, items;

  if (per==0)
    {
      *count = 0;
      return(MPI_SUCCESS);
    }
  items = status->get_count / per;
  *count = items * per == status->get_count ? items : MPI_UNDEFINED;
"""))
r('alloc-unify', 'C01', 'handles.c', ("""  if (nextfree)
    {
      new= nextfree;
      nextfree= nextfree->next;
      new->next=NULL;

      *handle= new->handle;
      *data= &(new->data);

      return;
    }
""", """  if (nextfree)
    {
      new= nextfree;
      goto take;
    }
"""), ("""  new=init_block(nblocks,blocks[nblocks]);

  nextfree= new->next;
  new->next=NULL;

  *handle= new->handle;
  *data= &(new->data);

  nblocks++;  /* DON'T FORGET THIS!!!! */
""", """  new=init_block(nblocks,blocks[nblocks]);
  nblocks++;  /* DON'T FORGET THIS!!!! */

take:
  nextfree= new->next;
  new->next=NULL;
  *handle= new->handle;
  *data= &(new->data);
"""))
r('initblock-down', 'C01', 'handles.c', ("""  for (i=0; i<BLOCK_ITEMS-1; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = &b[i+1];
    }

  b[BLOCK_ITEMS-1].handle= HANDLE(block,BLOCK_ITEMS-1);
  b[BLOCK_ITEMS-1].next=0;
""", """  Handleitem *next=NULL;

  for (i=BLOCK_ITEMS-1; i>=0; i--)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = next;
      next = &b[i];
    }
"""))
r('initblock-cond', 'C01', 'handles.c', ("""  for (i=0; i<BLOCK_ITEMS-1; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = &b[i+1];
    }

  b[BLOCK_ITEMS-1].handle= HANDLE(block,BLOCK_ITEMS-1);
  b[BLOCK_ITEMS-1].next=0;
""", """  for (i=0; i<BLOCK_ITEMS; i++)
    {
      b[i].handle= HANDLE(block,i);
      b[i].next = i+1<BLOCK_ITEMS ? &b[i+1] : NULL;
    }
"""))
r('inithandles-memset', 'C01', 'handles.c', ("""  for (i=1; i<MAX_BLOCKS; i++)
    blocks[i]=NULL;
""", """  memset(&blocks[1], 0, sizeof(blocks)-sizeof(blocks[0]));
"""))
r('pack-remaining', 'C12', 'pack.c', ("""      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),
             Simpletype_length(type->pairs[j].type));
      *position += Simpletype_length(type->pairs[j].type);
""", """      typepair *tp = type->pairs + j;
      int len = Simpletype_length(tp->type), left = outsize - *position;
      char *from = (char*) inbuf + extent*i + tp->disp;

      if (left < len)
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy((char*) outbuf + *position, from, len);
      *position = *position + len;
"""))
r('pack-for-pointer', 'C12', 'pack.c', ("""  for (i = 0; i < incount; i++)
  {
    for (j = 0; j < type->count; j++)
    {
      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+(*position), inbuf+type->pairs[j].disp + (extent*i),
             Simpletype_length(type->pairs[j].type));
      *position += Simpletype_length(type->pairs[j].type);
""", """  for (i = 0; i < incount; i++)
  {
    typepair *p;
    for (p = type->pairs, j = type->count; j > 0; j--, p++)
    {
      int len = Simpletype_length(p->type);
      if (len > outsize - (*position))
      {
        printf("MPI_Pack: data exceeds buffer size\\n");
        exit(1);
      }
      memcpy(((char*) outbuf)+(*position), inbuf+p->disp + (extent*i), len);
      *position += len;
"""))
r('packsize-long', 'C13', 'pack.c', ("""    *size = 0;
    //sum up all sizes
    for(i = 0; i < datatype->count; i++)
    {
        *size += Simpletype_length(datatype->pairs[i].type);
    }
    *size *= incount;
""", """    MPI_Aint one = 0;
    typepair *p = datatype->pairs, *end = p + datatype->count;

    for (; p != end; p++)
        one += Simpletype_length(p->type);
    *size = (MPI_Aint) incount * one;
"""))
r('message-minmax', 'C05 C24', 'copy.c', ("""  n = src_ptr->count * src_count;
  if (dest_ptr->count * dest_count < n)
    n = dest_ptr->count * dest_count;

""", """  int have = src_count * src_ptr->count, want = dest_count * dest_ptr->count;
  n = want;
  if (n > have)
    n = have;

"""))
r('listnext-ternary', 'C02', 'list.c', ("""  if (*temp)                             /* temp is previous item */
    {
      cur=(pListitem)(*temp);
      cur=cur->next;
    }
  else                                  /* First item */
    cur=list->head;

  if (cur)
    {
      *temp=(void *)cur;
      *data=cur->data;
      return(1);
    }
  else
    return(0);
""", """  cur = *temp ? ((pListitem)*temp)->next : list->head;

  if (!cur)
    return(0);

  *data=cur->data;
  *temp=cur;
  return(1);
"""))
r('duplicate-append', 'C02', 'list.c', ("""      new=AP_listitem_malloc();
      new->data=cur->data;
      new->prev=prev;

      if (prev)
	prev->next=new;
      else
	newlist->head=new;

      prev=new;

      cur=cur->next;
    }

  if (prev)
    prev->next=NULL;

  newlist->tail=prev;
  newlist->count=list->count;
  return(newlist);""", """      AP_list_append(newlist,cur->data);
      cur=cur->next;
    }

  (void) new;
  return(newlist);"""))
r('listdelete-local', 'C02', 'list.c', ("""  if (item == list->head)
    list->head = item->next;
  else
    item->prev->next = item->next;

  /* set pointer of following listitem */

  if (item == list->tail)
    list->tail = item->prev;
  else
    item->next->prev = item->prev;

  AP_listitem_free(item);
  (list->count)--;
""", """  pListitem before = item->prev, after = item->next;

  if (before)
    before->next = after;
  else
    list->head = after;

  if (after)
    after->prev = before;
  else
    list->tail = before;

  list->count--;
  AP_listitem_free(item);
"""))
r('cart-count', 'C18', 'cart.c', ("""  for (i=0; i<ndims; i++)
""", """  for (i=ndims-1; i>=0; i--)
"""))


def main():
    only = sys.argv[1:]
    for name, props, f, edits in R:
        if only and name not in only:
            continue
        d = tempfile.mkdtemp(prefix='refac')
        try:
            for x in glob.glob('/repo/*.c') + glob.glob('/repo/*.h'):
                shutil.copy(x, d)
            p = os.path.join(d, f)
            s = open(p).read()
            miss = [o for o, n in edits if o not in s]
            if miss:  # noqa
                print(name, 'EDIT DOES NOT APPLY', repr(miss[0][:80]), flush=True)
                continue
            for o, n in edits:
                s = s.replace(o, n, 1)
            open(p, 'w').write(s)
            for q in props.split():
                r_ = subprocess.run(['python3-vt', '/verif/check.py', q, 'quick'], env=dict(os.environ, VC_REPO=d, VERIF_SEED='1'), capture_output=True, text=True)
                t = r_.stdout.strip().split('\n')
                if r_.returncode == 0:
                    print(name, q, 'quiet', t[-1].split(', ')[-1], flush=True)
                else:
                    print(name, q, 'ALARM', t[-1], flush=True)
                    try:
                        print('\n'.join(l for l in open('/verif/evidence/replay-%s.txt' % q).read().split('\n') if l.startswith('FAILED') or 'solver' in l or 'FAIL' in l)[:1500], flush=True)
                    except OSError:
                        pass
        finally:
            print(d) if os.environ.get('KEEP') else shutil.rmtree(d)


main()
