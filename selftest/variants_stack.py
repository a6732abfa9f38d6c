S='include/falcon/engine/pagedstack.h'
D='include/falcon/engine/distribute.h'
ST='C13 C14 C15 C16 C17 C18'
# ---- content
POP1='''      m_curBase->pop_back();
      if(m_curBase->empty() && m_curBase != m_base.begin()) {
         --m_curBase;
      }
   }

   void internal_pop() {}'''
V('C13','bad',S,POP1,'''      m_curBase->pop_back();
   }

   void internal_pop() {}''')
V('C13','bad',S,POP1,POP1.replace('m_curBase->empty() && ','m_curBase->size() <= 1 && '))
V('C13','bad',S,POP1,POP1.replace('if(m_curBase->empty()','while(m_curBase->empty()').replace('m_curBase->pop_back();','m_curBase->pop_back(); if(m_curBase->size() == 1 && m_pageSize > 4) m_curBase->clear();'))
V('C13','bad',S,'if (m_curBase->size() == m_pageSize) {','if (m_curBase->size() >= m_pageSize - 1) {')
V('C13 C16','bad',S,'if (m_curBase->size() == m_pageSize) {','if (m_curBase->size() > m_pageSize) {')
V('C13','bad',S,'''         ++m_curBase;
         if(m_curBase == m_base.end()) {
            m_curBase--;
            growBase();
            m_curBase++;
         }''','''         auto next = m_curBase;
         if(++next == m_base.end()) {
            growBase();
            m_curBase = --m_base.end();
         }
         else {
            m_curBase = next;
         }''')
V(ST,'same',S,'''         ++m_curBase;
         if(m_curBase == m_base.end()) {
            m_curBase--;
            growBase();
            m_curBase++;
         }''','''         auto next = m_curBase;
         if(++next == m_base.end()) {
            growBase();
         }
         ++m_curBase;''')
V('C13','bad',S,'''         if(m_curBase == m_base.end()) {
            m_curBase--;
            growBase();
            m_curBase++;
         }''','''         if(m_curBase == m_base.end()) {
            m_curBase--;
            growBase();
         }''')
V('C13','bad',S,'''      internal_push(data);
      internal_push(std::forward<_Args>(__args)...);''','''      internal_push(std::forward<_Args>(__args)...);
      internal_push(data);''')
V('C13','bad',S,'      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n      m_curBase->clear();','      m_curBase->clear();\n      m_curBase = m_base.begin();\n      m_curBase->clear();')
V('C13','bad',S,'      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n      m_curBase->clear();','      while(m_curBase != m_base.begin()) {\n         --m_curBase;\n         m_curBase->clear();\n      }\n      m_curBase->clear();')
V(ST,'same',S,'      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n      m_curBase->clear();','      for(auto& page: m_base) {\n         page.clear();\n      }\n      m_curBase = m_base.begin();')
V(ST,'same',S,'      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n      m_curBase->clear();','      for(;;) {\n         m_curBase->clear();\n         if(m_curBase == m_base.begin()) break;\n         --m_curBase;\n      }')
V('C13','bad',S,'while(count >= m_curBase->size()) {','while(count > m_curBase->size()) {')
V('C13','bad',S,'''         count -= m_curBase->size();
         m_curBase->clear();
         if( m_''','''         m_curBase->clear();
         count -= m_curBase->size();
         if( m_''')
V('C13','bad',S,'''         if( m_curBase == m_base.begin() ) {
            return;
         }
         m_curBase--;
      }
      m_curBase->resize(m_curBase->size() - count);''','''         if( m_curBase == m_base.begin() ) {
            return;
         }
         m_curBase--;
      }
      m_curBase->resize(m_pageSize - count + (m_curBase == m_base.begin() ? 0 : 1));''')
V(ST,'same',S,'''      while(count >= m_curBase->size()) {
         count -= m_curBase->size();
         m_curBase->clear();
         if( m_curBase == m_base.begin() ) {
            return;
         }
         m_curBase--;
      }
      m_curBase->resize(m_curBase->size() - count);''','''      for(; count > 0; --count) {
         internal_pop_one();
      }''') if False else None
V(ST,'same',S,'''      while(count >= m_curBase->size()) {
         count -= m_curBase->size();
         m_curBase->clear();
         if( m_curBase == m_base.begin() ) {
            return;
         }
         m_curBase--;
      }
      m_curBase->resize(m_curBase->size() - count);''','''      size_t here = m_curBase->size();
      while(here <= count) {
         m_curBase->clear();
         if( m_curBase == m_base.begin() ) {
            return;
         }
         count -= here;
         --m_curBase;
         here = m_curBase->size();
      }
      m_curBase->erase(m_curBase->end() - count, m_curBase->end());''')
V('C13','bad',S,'''      if(iData == m_curBase->begin())
      {
         m_curBase->clear();
         if (m_curBase != m_base.begin())
         {
            m_curBase--;
         }
      }
      else {
         m_curBase->resize(iData - m_curBase->begin());
      }''','''      m_curBase->resize(iData - m_curBase->begin());''')
V('C13','bad',S,'m_curBase->resize(iData - m_curBase->begin());','m_curBase->resize(iData - m_curBase->begin() + 1);')
V(ST,'same',S,'''      if(iData == m_curBase->begin())
      {
         m_curBase->clear();
         if (m_curBase != m_base.begin())
         {
            m_curBase--;
         }
      }
      else {
         m_curBase->resize(iData - m_curBase->begin());
      }''','''      m_curBase->resize(iData - m_curBase->begin());
      retreat();''')
V('C13','bad',S,'        ++iter;\n        // TODO','        // TODO')
V('C13','bad',S,'        typename base_type::iterator iter = m_curBase;\n        ++iter;','        typename base_type::iterator iter = m_base.begin();\n        ++iter;')
V(ST,'same',S,'''        while(iter != m_base.end()) {
           iter = m_base.erase(iter);
        }''','''        m_base.erase(iter, m_base.end());''')
V('C13','bad',S,'''         count += iter->size();
         ++iter;
      }
      count += m_curBase->size();''','''         count += m_pageSize;
         ++iter;
      }
      count += iter->size() == m_pageSize ? m_pageSize - 1 : m_curBase->size();''')
V('C13','bad',S,'''      while(iter != m_curBase) {
         count += iter->size();''','''      while(++iter != m_curBase && iter != m_base.end()) {
         count += iter->size();''')
V(ST,'same',S,'''      auto iter = m_base.begin();
      while(iter != m_curBase) {
         count += iter->size();
         ++iter;
      }
      count += m_curBase->size();
      return count;''','''      for(const auto& page: m_base) {
         count += page.size();
      }
      return count;''')
V('C13','same',S,'return m_curBase == m_base.begin() && m_curBase->empty();','return m_base.front().size() < 2 && m_curBase->empty();')
V('C13','bad',S,'return m_curBase == m_base.begin() && m_curBase->empty();','return m_curBase == m_base.begin();')
V(ST,'same',S,'return m_curBase == m_base.begin() && m_curBase->empty();','return m_base.front().empty();')
V('C13','bad',S,'m_curBase->back() = value;','m_base.back().back() = value;')
V('C13','bad',S,'m_curBase->back() = value;','m_curBase->front() = value;')
V('C13','bad',S,'         if(iter == other.m_curBase) {\n            break;','         if(iter->empty() || iter->size() < m_pageSize || iter == --other.m_base.end()) {\n            break;') if False else None
V('C13','bad',S,'         for(const _T& value: *iter) {\n            internal_push(value);','         for(const _T& value: *iter) {\n            if(m_curBase->size() + 1 < m_pageSize || m_pageSize == 1) internal_push(value);')
V('C13','bad',S,'m_curBase = std::exchange(copy.m_curBase, m_curBase);','m_curBase = --m_base.end();')
V('C13','bad',S,'         m_pageSize = copy.m_pageSize;\n','')
# ---- locking
V('C14','bad',S,'   void pop() {\n      assert(!empty());\n      std::lock_guard<_Mutex> guard(m_mutex);','   void pop() {\n      std::lock_guard<_Mutex> guard(m_mutex);\n      assert(!empty());')
V('C14','bad',S,'   void pop() {\n      assert(!empty());\n      std::lock_guard<_Mutex> guard(m_mutex);','   void pop() {\n      assert(!empty());')
V('C14','bad',S,'const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return','const _T& top() const noexcept { return')
V('C14','bad',S,'      if(m_syncIterCount > 0){\n         m_shrinkRequest = true;\n         return;\n      }\n      internal_shrink','      if(m_syncIterCount > 0){\n         m_shrinkRequest = true;\n         return;\n      }\n      m_mutex.unlock(); m_mutex.lock();\n      internal_shrink',S,'      std::lock_guard<_Mutex> guard(m_mutex);\n      if(m_syncIterCount > 0){','      m_mutex.lock();\n      std::lock_guard<_Mutex> guard(m_mutex, std::adopt_lock);\n      if(m_syncIterCount > 0){') if False else None
V('C14','bad',S,'''   void push(const _T& data) {
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_push(data);''','''   void push(const _T& data) {
      m_mutex.lock();
      internal_push(data);
      m_mutex.unlock();''')
V('C14','bad',S,'''      std::lock_guard<_Mutex> guard(m_mutex);
      advance();
      // vector''','''      advance();
      std::lock_guard<_Mutex> guard(m_mutex);
      // vector''')
V('C14','bad',S,'''      assert(depth <= size());
      std::lock_guard<_Mutex> guard(m_mutex);
      return internal_from_top(depth);
    }''','''      std::lock_guard<_Mutex> guard(m_mutex);
      assert(depth <= size());
      return internal_from_top(depth);
    }''')
V('C14','bad',S,'      std::lock_guard<_Mutex> guard(m_mutex);\n      distribute(cbegin()','      distribute(cbegin()')
V('C14','bad',S,'''      std::lock_guard<_Mutex> guard(m_mutex);
      blocks = m_base.size();''','''      blocks = m_base.size();
      std::lock_guard<_Mutex> guard(m_mutex);''')
V('C14','bad',S,'      const sync_iterator_base& operator++()  {\n         PagedStack::lock_guard guard(m_owner);','      const sync_iterator_base& operator++()  {')
V('C14','bad',S,'''      std::lock_guard<_Mutex> guard(m_mutex);
      if(--m_syncIterCount == 0 && m_shrinkRequest) {''','''      int left;
      { std::lock_guard<_Mutex> guard(m_mutex); left = --m_syncIterCount; }
      if(left == 0 && m_shrinkRequest) {''')
V('C14','bad',S,'         PagedStack::lock_guard guard(m_owner);\n         m_owner->m_syncIterCount++;','         m_owner->m_syncIterCount++;')
V('C14','bad',S,'''         PagedStack copy(other);
         std::lock_guard<_Mutex> guard(m_mutex);''','''         std::lock_guard<_Mutex> guard(m_mutex);
         PagedStack copy(other);''')
V('C14','bad',S,'            PagedStack(other, std::lock_guard<_Mutex>(other.m_mutex))','            PagedStack(other, *static_cast<std::lock_guard<_Mutex>*>(nullptr))')
V(ST,'same',S,'''   void push(const _T& data) {
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_push(data);''','''   void push(const _T& data) {
      std::unique_lock<_Mutex> guard(m_mutex);
      internal_push(data);
      guard.unlock();''')
V(ST,'same',S,'''   void push(const _T& data) {
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_push(data);''','''   void push(const _T& data) {
      lock_guard guard(this);
      internal_push(data);''')
# ---- synchronised iterators
V('C15','bad',S,'if(--m_syncIterCount == 0 && m_shrinkRequest) {','--m_syncIterCount;\n      if(m_shrinkRequest) {')
V('C15','bad',S,'if(--m_syncIterCount == 0 && m_shrinkRequest) {','if(m_syncIterCount-- == 0 && m_shrinkRequest) {')
V('C15','bad',S,'         m_shrinkRequest = false;\n         const_cast','         const_cast')
V('C15','bad',S,'if(m_syncIterCount > 0){','if(m_syncIterCount > 1){')
V('C15','bad',S,'         m_shrinkRequest = true;\n         return;','         return;')
V('C15','bad',S,'         m_owner->m_syncIterCount++;\n      }\n\n      sync_iterator_base& operator=','      }\n\n      sync_iterator_base& operator=')
V('C15','bad',S,'''         sync_iterator_base copy(other);
         std::swap(m_iBase, copy.m_iBase);''','''         sync_iterator_base copy(other);
         m_owner->removeSyncIterator();
         std::swap(m_iBase, copy.m_iBase);''')
V('C15','bad',S,'if (m_iBase->size() > m_iData - m_iBase->begin())','if (m_iBase->size() >= m_iData - m_iBase->begin())')
V('C15','bad',S,'            while(++nbase != m_owner->m_base.end()) {','            while(nbase++ == m_iBase) {')
V('C15','bad',S,'         m_iData = m_iBase->end()-1;\n','         m_iData = m_iBase->begin();\n')
V('C15','bad',S,'         if ( m_iBase->size() == 0)\n','         if ( m_iBase->size() == 0 && m_iBase == m_owner->m_base.end())\n')
V('C15','bad',S,'         m_iData = m_iBase->end()-1;\n\n         return false;','         m_iData = m_iBase->end()-1;\n\n         return true;')
V('C15','bad',S,'''         PagedStack::lock_guard guard(m_owner);
         synchronize();
         value = *m_iData;''','''         PagedStack::lock_guard guard(m_owner);
         value = *m_iData;''')
V('C15','bad',S,'''         if (synchronize()){
            if(m_iData == m_iBase->begin() && m_iBase != m_iBaseBegin) {
               --m_iBase;
               m_iData = m_iBase->end();
            }
            --m_iData;''','''         if (synchronize()){
            if(m_iData == m_iBase->begin() && m_iBase != m_iBaseBegin) {
               --m_iBase;
               m_iData = --m_iBase->end();
            }
            --m_iData;''')
V('C15','bad',S,'''         PagedStack::lock_guard guard(m_owner);
         if (synchronize()){
            ++m_iData;''','''         PagedStack::lock_guard guard(m_owner);
         synchronize(); {
            ++m_iData;''')
V(ST,'same',S,'''         // are we fully synchronised?
         if(m_owner->m_curBase == m_iBase) {
            if (m_iBase->size() > m_iData - m_iBase->begin())
            {
               return true;
            }
         }
         else {
            _IBase nbase = m_iBase;
            while(++nbase != m_owner->m_base.end()) {
               // we are in sync also if the base is BEYOND us.
               if(nbase == m_owner->m_curBase) {
                  return true;
               }
            }

         }
''','''         for(_IBase page = m_iBase; page != m_owner->m_base.end(); ++page) {
            if(page == m_owner->m_curBase) {
               if(page != m_iBase || size_t(m_iData - m_iBase->begin()) < m_iBase->size()) {
                  return true;
               }
               break;
            }
         }
''')
V(ST,'same',S,'      if(--m_syncIterCount == 0 && m_shrinkRequest) {\n         m_shrinkRequest = false;\n         const_cast<PagedStack*>(this)->internal_shrink_to_fit();\n      }','      --m_syncIterCount;\n      if(m_syncIterCount > 0 || !m_shrinkRequest) {\n         return;\n      }\n      const_cast<PagedStack*>(this)->internal_shrink_to_fit();\n      m_shrinkRequest = false;')
# ---- stable addresses, failures
V('C16','bad',S,'         page.reserve(m_pageSize);\n','')
V('C16','bad',S,'         page.reserve(m_pageSize);\n','         page.reserve(m_pageSize / 2);\n')
V('C16','bad',S,'         page.reserve(m_pageSize);\n         m_base.push_back(std::move(page));','         m_base.push_back(std::move(page));\n         m_base.back().reserve(m_pageSize);')
V('C16','bad',S,'         page.reserve(m_pageSize);\n         m_base.push_back(std::move(page));','         page.reserve(m_pageSize);\n         m_base.push_back(page);')
V('C16','bad',S,'''      try {
         m_curBase->push_back(data);
      }
      catch(...) {
         retreat();
         throw;
      }''','''      m_curBase->push_back(data);''')
V('C16','bad',S,'''         m_curBase->emplace_back(std::forward<_Args>(__args)...);
      }
      catch(...) {
         retreat();''','''         m_curBase->emplace_back(std::forward<_Args>(__args)...);
      }
      catch(...) {''')
V('C16','bad',S,'''            m_curBase--;
            growBase();
            m_curBase++;''','''            growBase();
            m_curBase = std::prev(m_base.end(), m_allocSize);''')
V('C16','bad',S,'        ++iter;\n        // TODO','        m_curBase->shrink_to_fit(); ++iter;\n        // TODO')
V(ST,'same',S,'''      try {
         m_curBase->push_back(data);
      }
      catch(...) {
         retreat();
         throw;
      }''','''      if(m_curBase->empty()) {
         try { m_curBase->push_back(data); }
         catch(...) { retreat(); throw; }
      }
      else {
         m_curBase->push_back(data);
      }''')
V(ST,'same',S,'''      size_t count = m_allocSize;
      while(count) {
         page_type page(m_dataAllocator);
         page.reserve(m_pageSize);
         m_base.push_back(std::move(page));
         --count;
      }''','''      for(size_t i = 0; i != m_allocSize; ++i) {
         page_type page(m_dataAllocator);
         page.reserve(m_pageSize);
         m_base.emplace_back(std::move(page));
      }''')
# ---- plain iterators
V('C17','bad',S,'if(m_iData == m_iBase->end() && m_iBase != m_iBaseEnd) {','if(m_iData == m_iBase->end()) {')
V('C17','bad',S,'''         if(m_iData == m_iBase->begin() && m_iBase != m_iBaseBegin) {
            --m_iBase;
            m_iData = m_iBase->end();
         }
         --m_iData;
         return *this;
      }

      const iterator_base& operator--()''','''         if(m_iData == m_iBase->begin()) {
            --m_iBase;
            m_iData = m_iBase->end();
         }
         --m_iData;
         return *this;
      }

      const iterator_base& operator--()''')
V('C17','bad',S,'''         if(m_iData == m_iBase->end()) {
            ++m_iBase;
            m_iData = m_iBase->begin();
         }
         return *this;
      }
   private:

      iterator_base(''','''         if(m_iData == --m_iBase->end()) {
            ++m_iBase;
            m_iData = m_iBase->begin();
         }
         return *this;
      }
   private:

      iterator_base(''')
V('C17','bad',S,'reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}','reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}')
V('C17','bad',S,'const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}','const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_base.cbegin());}')
V('C17','bad',S,'const_iterator begin() const noexcept  {return const_iterator(m_curBase, --m_curBase->end(), m_base.cbegin());}','const_iterator begin() const noexcept  {return const_iterator(m_curBase, --m_curBase->end(), m_curBase);}')
V('C17','bad',S,'         for(size_t i=0; i < size; ++i) {++ *this;}','         for(size_t i=0; i <= size; ++i) {++ *this;}')
V('C17','bad',S,'''      reverse_iterator_base operator--(int) noexcept {
         reverse_iterator_base current = *this;
         --(*this);''','''      reverse_iterator_base operator--(int) noexcept {
         reverse_iterator_base current = *this;
         ++(*this);''')
V('C17','bad',S,'''      bool operator ==(const reverse_iterator_base& other) const noexcept {
         return m_iBase == other.m_iBase && m_iData == other.m_iData;''','''      bool operator ==(const reverse_iterator_base& other) const noexcept {
         return m_iBase == other.m_iBase;''')
V('C17','bad',S,'''         if(m_iData == m_iBase->begin()) {
            --m_iBase;
            m_iData = m_iBase->end();
         }
         --m_iData;''','''         if(m_iData == m_iBase->begin()) {
            --m_iBase;
            m_iData = --m_iBase->end();
         }
         else --m_iData;''') if False else None
V('C17','same',S,'''         if(m_iData == m_iBase->begin()) {
            --m_iBase;
            m_iData = m_iBase->end();
         }
         --m_iData;''','''         if(m_iData == m_iBase->begin()) {
            --m_iBase;
            m_iData = --m_iBase->end();
         }
         else --m_iData;''')
V('C17','same',S,'         for(size_t i=0; i < size; ++i) {++ *this;}','         while(size-- > 0) {++ *this;}')
V('C17','same',S,'         return m_iBase == other.m_iBase && m_iData == other.m_iData;','         return !(m_iBase != other.m_iBase) && m_iData == other.m_iData;')
# ---- argument order
V('C18','bad',S,'''      value = m_curBase->back();
      internal_pop_one();
      internal_pop(std::forward<_Args>(__args)...);''','''      internal_pop(std::forward<_Args>(__args)...);
      value = m_curBase->back();
      internal_pop_one();''')
V('C18','bad',S,'distribute(internal_from_top(sizeof...(__args)), std::forward<_Args>(__args)...);','distribute(cbegin(), std::forward<_Args>(__args)...);')
V('C18','bad',S,'distribute(internal_from_top(depth), ','distribute(internal_from_top(depth > m_pageSize ? m_pageSize : depth), ')
V('C18','bad',S,'      while(depth > iBase->size()) {\n','      while(depth >= iBase->size()) {\n')
V('C18','bad',S,'distribute(cbegin(), std','distribute(crbegin(), std')
V('C18','bad',D,'''	tgt = *iter;
	++iter;
	distribute(std::forward<_iterator>(iter), args...);''','''	++iter;
	distribute(iter, args...);
	tgt = *iter;''')
V('C18','bad',D,'	distribute(std::forward<_iterator>(iter), args...);','	auto next = iter;\n	++iter;\n	distribute(next, args...);')
V('C18 C13','same',S,'''      while(depth > iBase->size()) {
         depth -= iBase->size();
         iBase--;
      }
      return reverse_iterator(''','''      for(size_t n = iBase->size(); depth > n; n = iBase->size()) {
         depth -= n;
         --iBase;
      }
      return reverse_iterator(''')
V('C18 C13','same',S,'''      value = m_curBase->back();
      internal_pop_one();''','''      _T& last = m_curBase->back();
      value = last;
      internal_pop_one();''')
V('C18','same',D,'''	tgt = *iter;
	++iter;
	distribute(std::forward<_iterator>(iter), args...);''','''	distribute(iter, tgt);
	++iter;
	distribute(iter, args...);''')
