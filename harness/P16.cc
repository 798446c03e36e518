#include "db/rocks_store.cc"
using namespace ron;
using Store = RocksDBStore<TextFrame>;
using RW = rocksdb::WriteOptions;
using RR = rocksdb::ReadOptions;
using RS = rocksdb::Slice;
using CF = rocksdb::ColumnFamilyHandle;
extern "C" {
// where things are
const void* h_db(const Store* s) { return &s->db_; }
const void* h_cf(const Store* s) { return &s->cf_; }
const void* h_tip(const Store* s) { return &s->tip; }
const void* h_it(const Store::Iterator* s) { return &s->i_; }
const void* h_mop(const rocksdb::ColumnFamilyOptions* s) { return &s->merge_operator; }
const void* h_mop2(const rocksdb::Options* s) { return &s->merge_operator; }
const void* h_create(const rocksdb::Options* s) { return &s->create_if_missing; }
const void* h_mkey(const rocksdb::MergeOperator::MergeOperationInput* m) { return &m->key; }
const void* h_mex(const rocksdb::MergeOperator::MergeOperationInput* m) { return &m->existing_value; }
const void* h_mops(const rocksdb::MergeOperator::MergeOperationInput* m) { return &m->operand_list; }
const void* h_mout(const rocksdb::MergeOperator::MergeOperationOutput* m) { return &m->new_value; }
// the slots of the virtual methods
void h_v_Merge(DB* d, const RW& w, CF* c, const RS& k, const RS& v) { d->Merge(w, c, k, v); }
void h_v_Put(DB* d, const RW& w, CF* c, const RS& k, const RS& v) { d->Put(w, c, k, v); }
void h_v_Delete(DB* d, const RW& w, CF* c, const RS& k) { d->Delete(w, c, k); }
void h_v_Get(DB* d, const RR& w, CF* c, const RS& k, std::string* v) { d->Get(w, c, k, v); }
void h_v_Write(DB* d, const RW& w, rocksdb::WriteBatch* b) { d->Write(w, b); }
void h_v_NewIterator(DB* d, const RR& w, CF* c) { d->NewIterator(w, c); }
void h_v_CreateColumnFamily(DB* d, const rocksdb::ColumnFamilyOptions& o, const std::string& n, CF** c) { d->CreateColumnFamily(o, n, c); }
void h_v_DropColumnFamily(DB* d, CF* c) { d->DropColumnFamily(c); }
void h_v_DefaultColumnFamily(DB* d) { d->DefaultColumnFamily(); }
void h_v_Valid(rocksdb::Iterator* i) { i->Valid(); }
void h_v_Seek(rocksdb::Iterator* i, const RS& s) { i->Seek(s); }
void h_v_SeekForPrev(rocksdb::Iterator* i, const RS& s) { i->SeekForPrev(s); }
void h_v_Next(rocksdb::Iterator* i) { i->Next(); }
void h_v_Prev(rocksdb::Iterator* i) { i->Prev(); }
void h_v_key(rocksdb::Iterator* i) { i->key(); }
void h_v_value(rocksdb::Iterator* i) { i->value(); }
void h_v_status(rocksdb::Iterator* i) { i->status(); }
void h_v_Merge0(DB* d, const RW& w, const RS& k, const RS& v) { d->Merge(w, k, v); }
void h_v_Put0(DB* d, const RW& w, const RS& k, const RS& v) { d->Put(w, k, v); }
void h_v_Get0(DB* d, const RR& w, const RS& k, std::string* v) { d->Get(w, k, v); }
void h_v_NewIterator0(DB* d, const RR& w) { d->NewIterator(w); }
void h_v_GetName(CF* i) { i->GetName(); }
void h_v_BMerge(rocksdb::WriteBatch* b, CF* c, const RS& k, const RS& v) { b->Merge(c, k, v); }
void h_v_BPut(rocksdb::WriteBatch* b, CF* c, const RS& k, const RS& v) { b->Put(c, k, v); }
const void* h_rdtmerge() { return new RDTMerge<TextFrame>{}; }
}
extern "C" {
size_t h_z_cfd(ColumnFamilyDescriptor* d) { return sizeof(*d); }
const void* h_cfd_name(ColumnFamilyDescriptor* d) { return &d->name; }
const void* h_cfd_opt(ColumnFamilyDescriptor* d) { return &d->options; }
size_t h_z_record() { return sizeof(Store::Record); }
size_t h_z_store() { return sizeof(Store); }
const void* h_rec_frame(Store::Record* d) { return &d->second; }
size_t h_z_cfo() { return sizeof(ColumnFamilyOptions); }
}
