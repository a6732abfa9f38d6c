F='include/falcon/futex.h'
CAS="while(!m_owned.compare_exchange_weak(\n            isOwned, true,\n            std::memory_order_acq_rel,\n            std::memory_order_relaxed) || isOwned ) {"
V('C20','bad',F,'std::memory_order_acq_rel','std::memory_order_release')
V('C20','bad',F,'std::memory_order_acq_rel','std::memory_order_relaxed')
V('C20','bad',F,'m_owned.store(false, std::memory_order_release)','m_owned.store(false, std::memory_order_relaxed)')
V('C20','bad',F,'m_owned.store(false, std::memory_order_release)','m_owned.store(true, std::memory_order_release)')
V('C20','bad',F,CAS,"int n=0; while(++n < 1000000 && (!m_owned.compare_exchange_weak(isOwned, true, std::memory_order_acq_rel, std::memory_order_relaxed) || isOwned) ) {")
V('C20','bad',F,CAS,"while(!m_owned.compare_exchange_weak(isOwned, true, std::memory_order_acq_rel, std::memory_order_relaxed) && isOwned ) {")
V('C20','same',F,CAS,"while(m_owned.exchange(true, std::memory_order_acquire)) {")
V('C20','same',F,CAS,"while(m_owned.load(std::memory_order_relaxed) || m_owned.exchange(true, std::memory_order_acquire)) {")
V('C20','same',F,CAS,"while(!m_owned.compare_exchange_strong(isOwned, true, std::memory_order_acquire, std::memory_order_relaxed)) {")
V('C20','bad',F,CAS,"if(!m_owned.load()) {m_owned.store(true); return;} while(!m_owned.compare_exchange_strong(isOwned, true, std::memory_order_acquire, std::memory_order_relaxed)) {")
V('C20','bad',F,'return m_owned.load(std::memory_order_acquire)','return !m_owned.load(std::memory_order_acquire)')
V('C20','same',F,'return m_owned.load(std::memory_order_acquire)','bool r = m_owned.load(std::memory_order_acquire); return r ? true : false')
V('C20','bad',F,'isOwned = false;\n\n','isOwned = m_owned.load();\n\n',F,"|| isOwned )",")")
V('C20 C22','same',F,'isOwned = false;\n\n','')
V('C22','bad',F,'--sc == 0','sc-- == 0')
V('C22 C20','same',F,'--sc == 0','sc-- == 1')
V('C22','bad',F,'sc = spinCount;\n         }','}')
V('C22','bad',F,'if(spinCount && --sc == 0)','if(--sc == 0 || spinCount == 0)')
V('C22','bad',F,'if(spinCount && --sc == 0)','if(spinCount > 1 && --sc == 0)')
V('C22','same',F,'unsigned int sc = spinCount;\n','unsigned int sc = 0;\n',F,'if(spinCount && --sc == 0)','if(spinCount && ++sc == spinCount)',F,'sc = spinCount;\n         }','sc = 0;\n         }')
V('C22','same',F,'unsigned int sc = spinCount;\n','unsigned int sc = 0;\n',F,'if(spinCount && --sc == 0)','if(spinCount && ++sc % (spinCount?spinCount:1) == 0)',F,'sc = spinCount;\n         }','}')
V('C22','bad',F,'std::this_thread::yield();','')
V('C21','bad',F,'&& free != thread_id','|| free != thread_id')
V('C21','bad',F,'&& free != thread_id','&& free == thread_id')
V('C21','bad',F,'m_owner.store(0, std::memory_order_seq_cst)','m_owner.store(0, std::memory_order_relaxed)')
V('C21','same',F,'m_owner.store(0, std::memory_order_seq_cst)','m_owner.store(0, std::memory_order_release)')
V('C21','same',F,'if(m_count > 0 && --m_count == 0) {','if(m_count == 0) return;\n m_count -= 1; if(m_count == 0) {')
V('C21','bad',F,'if(m_count > 0 && --m_count == 0) {','if(m_count-- == 0) {')
V('C21','bad',F,'if(m_count > 0 && --m_count == 0) {','if(m_count > 0) { --m_count;')
V('C21','bad',F,'++m_count;','if(free == 0) m_count = 1; else m_count += 2;')
V('C21','same',F,'++m_count;','if(free == 0) m_count = 1; else m_count += 1;')
V('C21','bad',F,'         free = 0;\n      }\n      ++m_count','      }\n      ++m_count')
V('C21','bad',F,'s_thread_id = ++s_count','s_thread_id = s_count++')
V('C21','bad',F,'s_thread_id = ++s_count','++s_count; s_thread_id = s_count')
V('C21','same',F,'s_thread_id = ++s_count','s_thread_id = s_count.fetch_add(1) + 1')
V('C21','bad',F,'s_thread_id != 0 && ','')
V('C21','same',F,'s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id','m_owner.load(std::memory_order_seq_cst) == s_thread_id && s_thread_id')
V('C21','same',F,'return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id','unsigned int o = m_owner.load(); return o != 0 && o == s_thread_id')
V('C21','bad',F,'static thread_local unsigned int s_thread_id','static unsigned int s_thread_id','engine/futex.cpp','thread_local unsigned int','unsigned int')
V('C21','same',F,'while(!m_owner.compare_exchange_strong(','if(m_owner.load() == thread_id) { ++m_count; return; }\n while(!m_owner.compare_exchange_strong(')
V('C21','bad',F,'while(!m_owner.compare_exchange_strong(','if(m_owner.load() == 0) { m_owner = thread_id; ++m_count; return; }\n while(!m_owner.compare_exchange_strong(')
V('C21','bad',F,'while(!m_owner.compare_exchange_strong(','if(m_count) { ++m_count; return; }\n while(!m_owner.compare_exchange_strong(')
A='include/falcon/atomic_gcc.h'
V('C23','bad',A,'__sync_add_and_fetch( &atomic, 1)','__sync_fetch_and_add( &atomic, 1)')
V('C23','bad',A,'__sync_add_and_fetch( &atomic, -1)','(atomic = atomic - 1)')
V('C23','bad',A,'__sync_add_and_fetch( &atomic, -1)','__sync_sub_and_fetch( &atomic, -1)')
V('C23','same',A,'__sync_add_and_fetch( &atomic, -1)','__sync_sub_and_fetch( &atomic, 1)')
V('C23','same',A,'__sync_add_and_fetch( &atomic, 1)','__atomic_add_fetch( &atomic, 1, __ATOMIC_SEQ_CST)')
V('C23','same',A,'return __sync_fetch_and_xor(&target, value)','int32 o; do { o = target; } while(!__sync_bool_compare_and_swap(&target, o, o ^ value)); return o')
V('C23','bad',A,'return __sync_fetch_and_xor(&target, value)','int32 o; do { o = target; } while(!__sync_bool_compare_and_swap(&target, o, o ^ value)); return target')
V('C23','bad',A,'__sync_fetch_and_and','__sync_and_and_fetch')
V('C23','bad',A,'__sync_fetch_and_or','__sync_fetch_and_xor')
V('C23','bad',A,'return __sync_bool_compare_and_swap( &target, compareTo, newVal )','if(target != compareTo) return false; target = newVal; return true')
V('C23','same',A,'return __sync_bool_compare_and_swap( &target, compareTo, newVal )','return __sync_val_compare_and_swap( &target, compareTo, newVal ) == compareTo')
V('C23','bad',A,'return __sync_bool_compare_and_swap( &target, compareTo, newVal )','return __sync_val_compare_and_swap( &target, compareTo, newVal ) == newVal')
V('C23','bad',A,'return (int32) __sync_lock_test_and_set( &atomic, value )','int32 old = atomicFetch(atomic); atomicSet(atomic, value); return old')
