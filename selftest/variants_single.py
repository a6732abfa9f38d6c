S='include/falcon/singleton.h'
G='''		static T inst;
		return &inst;
'''
V('C29','bad',S,G,'''		static T* inst = nullptr;
		if(inst == nullptr) { inst = new T; }
		return inst;
''')
V('C29','bad',S,G,'''		static thread_local T inst;
		return &inst;
''')
V('C29','bad',S,G,'''		if(m_inst == nullptr) { m_inst = new T; }
		return m_inst;
''',S,'	Singleton(): mtbl(this){}','	T* m_inst = nullptr;\n	Singleton(): mtbl(this){}')
V('C29','bad',S,G,'''		static T inst;
		static T other;
		if(this == reinterpret_cast<Singleton<T>*>(&other)) return &other;
		return &inst;
''')
V('C29','bad',S,'*(const_cast<Singleton<T>*>(this)->get())','*new T(*(const_cast<Singleton<T>*>(this)->get()))')
V('C29','bad',S,'T& operator*() {return *m_s->get();}','T& operator*() {static T scratch; return scratch;}')
V('C29','same',S,G,'''		static T* inst = new T;
		return inst;
''')
V('C29','same',S,G,'''		return &instance();
''',S,'	T* get() {','	static T& instance() { static T inst; return inst; }\n	T* get() {')
V('C29','same',S,'return const_cast<Singleton<T>*>(this)->get();','Singleton<T>* self = const_cast<Singleton<T>*>(this); return self->get();')
