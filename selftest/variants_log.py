L='engine/logsystem.cpp'
LH='include/falcon/logsystem.h'
G='engine/logger.cpp'
GH='include/falcon/logger.h'
LS='engine/logstream.cpp'
LSH='include/falcon/logstream.h'
# ---------------------------------------------------------------- C01 races
V('C01','bad',LS,'localtime_r(&tt, &local_tm);','local_tm = *localtime(&tt);')
V('C01','bad',L,'''	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
	}
''','''	diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
''')
V('C01','bad',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		diags.m_poolSize''','''		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_poolSize''')
V('C01','bad',LH,'std::atomic<size_t> m_unpooled;','size_t m_unpooled;')
V('C01','bad',LH,'std::atomic<bool> m_detached;','bool m_detached;')
V('C01','bad',LH,'std::atomic<LEVEL> m_level;\n   std::atomic<size_t> m_unp','LEVEL m_level;\n   std::atomic<size_t> m_unp')
V('C01','bad',L,'''	  std::lock_guard<std::mutex> guard(m_mtxCategory);
	  if(m_category == "") {
		  return true;
	  }
''','''	  if(m_category == "") {
		  return true;
	  }
	  std::lock_guard<std::mutex> guard(m_mtxCategory);
''')
V('C01','bad',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
''','''	m_isTerminated = true;
''')
V('C01','bad',L,'''	std::lock_guard<std::mutex> guard(m_mtxListeners);
	m_pendingListeners.push_back(l);''','''	m_pendingListeners.push_back(l);''')
V('C01','bad',L,'''	// prepare the pool
	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
		m_pool.push_back(new Message);
	}

	if(startNow) {
		start();
	}
''','''	if(startNow) {
		start();
	}
	// prepare the pool
	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
		m_pool.push_back(new Message);
	}
''')
V('C01','bad',L,'''	stop();

	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}
''','''	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}
	stop();
''')
V('C01','bad',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(!m_pool.empty()) {
			Message* msg''','''		if(m_pool.empty()) { m_unpooled++; return new Message; }
		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(!m_pool.empty()) {
			Message* msg''')
V('C01','bad',LSH,'''		std::lock_guard<std::mutex> guard(m_mtxStream);
		m_pout = out;''','''		m_pout = out;''')
V('C01','bad',LS,'''	std::lock_guard<std::mutex> guard(m_mtxStream);
	std::ostream& out = *m_pout;
''','''	std::ostream& out = *m_pout;
	std::lock_guard<std::mutex> guard(m_mtxStream);
''')
V('C01','bad',LS,'	std::string file;\n','	static std::string file;\n')
V('C01','bad',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();''','''	ListenerList fresh;
	fresh.swap(m_pendingListeners);
	m_mtxListeners.unlock();
	std::copy(fresh.begin(), fresh.end(),
			std::back_inserter(m_activeListeners));
	m_mtxListeners.lock();''')
V('C01','bad',LH,'''    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  return m_category;''','''    	  return m_category;''')
V('C01','bad',GH,'static thread_local std::string m_tempCategory;','static std::string m_tempCategory;',G,'thread_local std::string Logger::m_tempCategory{""};','std::string Logger::m_tempCategory{""};')
V('C01','bad',L,'m_msgReceived++;','m_msgReceived++; m_maxMsgQueueSize = std::max(m_maxMsgQueueSize, m_messages.size());')
V('C01 C02','same',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
''','''	{
		std::unique_lock<std::mutex> l(m_mtxMessage);
		m_isTerminated = true;
	}
''')
V('C01 C02','same',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();''','''	for(auto& l: m_pendingListeners) {
		m_activeListeners.push_back(l);
	}
	m_pendingListeners.clear();''')
V('C01 C02','same',L,'''	m_activeListeners.erase(
			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }),
			m_activeListeners.end());
''','''	auto it = m_activeListeners.begin();
	while(it != m_activeListeners.end()) {
		if((*it)->isDetached()) {
			dismissed.push_back(*it);
			it = m_activeListeners.erase(it);
		}
		else {
			++it;
		}
	}
''')
V('C01 C02','same',LH,'bool m_isTerminated;','std::atomic<bool> m_isTerminated;')
V('C01 C02','same',LH,'std::thread* m_logThread;','std::unique_ptr<std::thread> m_logThread;',L,'m_logThread(0),','',L,'if(m_logThread == 0) {\n		m','if(!m_logThread) {\n		m',L,'if(m_logThread == 0) {\n		return','if(!m_logThread) {\n		return',
  L,'m_logThread = new std::thread(&LogSystem::loggingThread, this);','m_logThread.reset(new std::thread(&LogSystem::loggingThread, this));',L,'	delete m_logThread;\n	m_logThread = 0;','	m_logThread.reset();')
V('C01 C02','same',LH,'std::thread* m_logThread;','std::thread m_logThread;',L,'		m_logThread(0),\n','',L,'if(m_logThread == 0) {\n		m','if(!m_logThread.joinable()) {\n		m',L,'if(m_logThread == 0) {\n		return','if(!m_logThread.joinable()) {\n		return',
  L,'m_logThread = new std::thread(&LogSystem::loggingThread, this);','m_logThread = std::thread(&LogSystem::loggingThread, this);',L,'	m_logThread->join();\n	delete m_logThread;\n	m_logThread = 0;','	m_logThread.join();')
V('C01 C02','same',L,'''	for(auto listener: m_activeListeners) {''','''	for(const auto& listener: m_activeListeners) {''')
V('C01 C02','same',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);
			return;
		}
	}''','''		m_mtxPool.lock();
		bool space = m_pool.size() < MESSAGE_POOL_THRESHOLD;
		if(space) m_pool.push_back(msg);
		m_mtxPool.unlock();
		if(space) return;
	}''')
V('C01 C02','same',L,'''			return (!m_messages.empty()) || m_isTerminated;
			}
		);''','''			return (!m_messages.empty()) || m_isTerminated;
			}
		);
		if(false) m_maxMsgQueueSize = 0;''')
V('C01 C02','same',L,'''		m_cvLogs.wait(msgl, [=](){
			return (!m_messages.empty()) || m_isTerminated;
			}
		);
''','''		while(m_messages.empty() && !m_isTerminated) { m_cvLogs.wait(msgl); }
''')
# ---------------------------------------------------------------- C02 deadlocks
SEND='''	m_msgReceived++;
	for(auto listener: m_activeListeners) {'''
V('C02','bad',L,SEND,'''	m_msgReceived++;
	std::lock_guard<std::mutex> guard(m_mtxListeners);
	for(auto listener: m_activeListeners) {''')
V('C02','bad',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs.notify_all();

	// we join in a lock, but this stop() should hardly be called more than once per program.
	m_logThread->join();''','''	std::lock_guard<std::mutex> msgGuard(m_mtxMessage);
	m_isTerminated = true;
	m_cvLogs.notify_all();

	m_logThread->join();''')
V('C02','bad',L,'''	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
	}
	{
		std::lock_guard<std::mutex> guard(m_mtxPool);''','''	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
		std::lock_guard<std::mutex> guard1(m_mtxPool);''',L,'''	m_destroyed++;
	delete msg;''','''	m_destroyed++;
	std::lock_guard<std::mutex> guard(m_mtxPool);
	std::lock_guard<std::mutex> guard2(m_mtxMessage);
	delete msg;''')
V('C02','bad',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		diags.m_poolSize''','''		m_mtxPool.lock();
		diags.m_poolSize''')
V('C02','bad',L,'''void LogSystem::processNewListeners() noexcept
{''','''void LogSystem::processNewListeners() noexcept
{
	if(m_pendingListeners.empty()) { std::lock_guard<std::mutex> g(m_mtxThread); }''')
V('C02','bad',L,'''		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);''','''		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			std::lock_guard<std::mutex> guard2(m_mtxPool);
			m_pool.push_back(msg);''')
V('C02','bad',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(!m_pool.empty()) {
			Message* msg = m_pool.back();
			m_pool.pop_back();
			return msg;
		}
	}
	m_unpooled++;
	return new Message;''','''		m_mtxPool.lock();
		if(!m_pool.empty()) {
			Message* msg = m_pool.back();
			m_pool.pop_back();
			m_mtxPool.unlock();
			return msg;
		}
	}
	m_unpooled++;
	Message* m = new Message;
	m_mtxPool.unlock();
	return m;''')
V('C02','bad',GH,'''		if(m_tempCategory.empty()) {
			log(''','''		if(m_tempCategory == "sync") { stop(); start(); }
		if(m_tempCategory.empty()) {
			log(''',L,'''	std::lock_guard<std::mutex> guard(m_mtxThread);
	if(m_logThread == 0) {
		m_mtxMessage''','''	std::lock_guard<std::mutex> guardm(m_mtxMessage);
	std::lock_guard<std::mutex> guard(m_mtxThread);
	if(m_logThread == 0) {
		m_mtxMessage''')
V('C02','same',L,'''	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
	}
	{
		std::lock_guard<std::mutex> guard(m_mtxPool);''','''	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
		std::lock_guard<std::mutex> guard1(m_mtxPool);''')
V('C02','same',L,'''		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(!m_pool.empty()) {''','''		std::unique_lock<std::mutex> guard(m_mtxPool);
		if(m_pool.empty()) {
			guard.unlock();
		}
		else {''')
# ---------------------------------------------------------------- C03 start, stop, destruction
V('C03','bad',L,'''		m_mtxMessage.lock();
		m_isTerminated = false;
		m_mtxMessage.unlock();
''','')
V('C03','bad',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs''','''	m_cvLogs''')
V('C03','bad',LH,'bool m_isTerminated;','std::atomic<bool> m_isTerminated;',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
''','''	m_isTerminated = true;
''')
V('C03','bad',L,'''	m_cvLogs.notify_all();

	// we join''','''	// we join''')
V('C03','bad',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs.notify_all();
''','''	m_cvLogs.notify_all();
	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
''')
V('C03','bad',L,'m_logThread->join();','m_logThread->detach();')
V('C03','bad',L,'	delete m_logThread;\n	m_logThread = 0;','	delete m_logThread;')
V('C03','bad',L,'''	std::lock_guard<std::mutex> guard(m_mtxThread);
	if(m_logThread == 0) {
		m_mtx''','''	if(m_logThread == 0) {
		m_mtx''')
V('C03','bad',L,'''	if(m_logThread == 0) {
		m_mtxMessage.lock();''','''	{
		m_mtxMessage.lock();''')
V('C03','bad',L,'return (!m_messages.empty()) || m_isTerminated;','return !m_messages.empty();')
V('C03','bad',L,'return (!m_messages.empty()) || m_isTerminated;','return m_isTerminated;')
V('C03','bad',L,'if (m_isTerminated) {','if (m_isTerminated && m_messages.empty()) {')
V('C03','bad',L,'''		m_cvLogs.wait(msgl, [=](){
			return (!m_messages.empty()) || m_isTerminated;
			}
		);''','''		m_cvLogs.wait(msgl);''')
V('C03','bad',L,'''	m_cvLogs.notify_all();
}

/**''','''}

/**''')
V('C03','bad',L,'''	m_cvLogs.notify_all();
}

/**''','''	if(m_messages.size() > 1) m_cvLogs.notify_all();
}

/**''')
V('C03','bad',L,'	if(startNow) {','	if(!startNow) {')
V('C03','bad',L,'	stop();\n\n	// delete','	// delete')
V('C03','bad',L,'''	for(auto* message: m_pool){
		delete message;
	}
''','')
V('C03','bad',L,'''	for(auto* message: m_messages){
		delete message;
	}
''','''	for(auto* message: m_messages){
		if(message->m_level) delete message;
	}
''')
V('C03','bad',L,'''	stop();

	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}
''','''	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}
	stop();
''')
V('C03','bad',L,'''	for(auto* message: m_pool){
		delete message;
	}
''','''	for(size_t i = 1; i < m_pool.size(); ++i){
		delete m_pool[i];
	}
''')
V('C03','same',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs''','''	{
		std::lock_guard<std::mutex> g2(m_mtxMessage);
		m_isTerminated = true;
	}
	m_cvLogs''')
V('C03','same',L,'''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs.notify_all();
''','''	m_mtxMessage.lock();
	m_isTerminated = true;
	m_cvLogs.notify_one();
	m_mtxMessage.unlock();
''')
V('C03','same',L,'''		m_cvLogs.wait(msgl, [=](){
			return (!m_messages.empty()) || m_isTerminated;
			}
		);''','''		while(m_messages.empty() && !m_isTerminated) {
			m_cvLogs.wait(msgl);
		}''')
V('C03','same',L,'''	for(auto* message: m_pool){
		delete message;
	}
''','''	while(!m_pool.empty()){
		delete m_pool.front();
		m_pool.pop_front();
	}
''')
V('C03','same',L,'''	for(auto* message: m_pool){
		delete message;
	}
''','''	for(size_t i = 0; i < m_pool.size(); ++i){
		delete m_pool[i];
	}
''')
V('C03','same',L,'''	for(auto* message: m_pool){
		delete message;
	}
''','''	std::for_each(m_pool.begin(), m_pool.end(), [](Message* m){ delete m; });
''')
V('C03','same',L,'''	delete m_logThread;
	m_logThread = 0;''','''	std::thread* t = m_logThread;
	m_logThread = 0;
	delete t;''')
V('C03','same',L,'''	if(m_logThread == 0) {
		return;
	}
''','''	if(!m_logThread) return;
''')
V('C01 C02 C03','same',LH,'std::thread* m_logThread;','std::unique_ptr<std::thread> m_logThread;',L,'		m_logThread(0),\n','',L,'m_logThread = new std::thread(&LogSystem::loggingThread, this);','m_logThread.reset(new std::thread(&LogSystem::loggingThread, this));',L,'	delete m_logThread;\n	m_logThread = 0;','	m_logThread.reset();',L,'if(m_logThread == 0) {\n		m_m','if(!m_logThread) {\n		m_m',L,'if(m_logThread == 0) {\n		ret','if(!m_logThread) {\n		ret')
V('C01 C02 C03','same',LH,'std::thread* m_logThread;','std::thread m_logThread;',L,'		m_logThread(0),\n','',L,'m_logThread = new std::thread(&LogSystem::loggingThread, this);','m_logThread = std::thread(&LogSystem::loggingThread, this);',L,'	delete m_logThread;\n	m_logThread = 0;','',L,'m_logThread->join','m_logThread.join',L,'if(m_logThread == 0) {\n		m_m','if(!m_logThread.joinable()) {\n		m_m',L,'if(m_logThread == 0) {\n		ret','if(!m_logThread.joinable()) {\n		ret')
V('C03','same',L,'''		if (m_isTerminated) {
			return;
		}
''','''		if (m_isTerminated) {
			break;
		}
''')
V('C03','same',L,'	while(true) {\n		std::unique_lock','	for(;;) {\n		std::unique_lock')
# ---------------------------------------------------------------- C04 message ownership
V('C04','bad',L,'	msg->m_category = cat;\n','')
V('C04','bad',L,'	msg->m_category = cat;\n','	if(!cat.empty()) msg->m_category = cat;\n')
V('C04','bad',L,'	msg->m_line = line;\n','')
V('C04','bad',L,'	msg->m_file = file;\n','	msg->m_file = cat;\n')
V('C04','bad',L,'	msg->m_message = message;\n	log(msg);','	log(msg);\n	msg->m_message = message;')
V('C04','bad',L,'	msg->m_message = message;\n','	msg->m_message += message;\n')
V('C04','bad',L,'m_pool.back();','m_pool.front();')
V('C04','bad',L,'			Message* msg = m_pool.back();\n			m_pool.pop_back();','			Message* msg = m_pool.back();')
V('C04','bad',L,'		m_messages.pop_front();\n','		m_messages.pop_back();\n')
V('C04','bad',L,'		m_messages.pop_front();\n','		if(m_messages.size() > 1) m_messages.pop_front();\n')
V('C04','bad',L,'''		// give back to the pool
		disposeMsg(msg);
''','')
V('C04','bad',L,'''			m_pool.push_back(msg);
			return;
''','''			m_pool.push_back(msg);
''')
V('C04','bad',L,'	m_destroyed++;\n	delete msg;','	m_destroyed++;')
V('C04','bad',L,'''		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();

		// give back to the pool
		disposeMsg(msg);
''','''		disposeMsg(msg);
		sendMessageToListeners(msg);
		cleanupTerminatedListeners();
''')
V('C04','bad',L,'			return msg;\n		}\n	}\n	m_unp','			msg->m_line = 0;\n		}\n	}\n	m_unp')
V('C04','bad',L,'	m_messages.push_back(msg);\n','	if(m_messages.size() < 1000) m_messages.push_back(msg);\n')
V('C04','bad',L,'	if (level > m_level) {\n		return;\n	}\n\n	Message* msg = allocateMsg();\n','	Message* msg = allocateMsg();\n	if (level > m_level) {\n		return;\n	}\n')
V('C04','bad',L,'''		msgl.unlock();
''','''		msgl.unlock();
		if(m_activeListeners.empty()) continue;
''')
V('C04','bad',L,'''		if(!m_pool.empty()) {
			Message* msg''','''		{
			Message* msg''')
V('C04','bad',L,'''	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
		m_pool.push_back(new Message);
	}
''','''	Message* first = new Message;
	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
		m_pool.push_back(first);
	}
''')
V('C04','same',L,'m_pool.back();','m_pool.front();',L,'m_pool.pop_back();','m_pool.pop_front();')
V('C04','same',L,'''	msg->m_file = file;
	msg->m_line = line;
	msg->m_level = level;
	msg->m_category = cat;
	msg->m_message = message;
''','''	msg->m_level = level;
	msg->m_message = message;
	msg->m_category.assign(cat);
	msg->m_line = line;
	msg->m_file = file;
''')
V('C04','same',L,'''	if (level > m_level) {
		return;
	}

	Message* msg = allocateMsg();
	msg->m_file = file;
	msg->m_line = line;
	msg->m_level = level;
	msg->m_category = cat;
	msg->m_message = message;
	log(msg);
''','''	if (level <= m_level) {
		Message* m = allocateMsg();
		m->m_file = file;
		m->m_line = line;
		m->m_level = level;
		m->m_category = cat;
		m->m_message = message;
		log(m);
	}
''')
V('C04','same',L,'''		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);
			return;
		}
	}
	m_destroyed++;
	delete msg;''','''		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);
			msg = nullptr;
		}
	}
	if(msg) {
		m_destroyed++;
		delete msg;
	}''')
V('C04','same',L,'''		Message* msg = m_messages.front();
		m_messages.pop_front();
''','''		auto first = m_messages.begin();
		Message* msg = *first;
		m_messages.erase(first);
''')
V('C04','same',L,'''	std::lock_guard<std::mutex> guard(m_mtxMessage);
	m_messages.push_back(msg);''','''	std::unique_lock<std::mutex> guard(m_mtxMessage);
	m_messages.emplace_back(msg);''')
# ---------------------------------------------------------------- C05 pool and diagnostics
V('C05','bad',L,'i < MESSAGE_POOL_THRESHOLD; ++i','i <= MESSAGE_POOL_THRESHOLD; ++i')
V('C05','bad',L,'m_pool.size() < MESSAGE_POOL_THRESHOLD','m_pool.size() <= MESSAGE_POOL_THRESHOLD')
V('C05','bad',L,'		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {\n			m_pool.push_back(msg);\n			return;\n		}\n','		m_pool.push_back(msg);\n		return;\n')
V('C05','bad',L,'''	{
		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);
			return;
		}
	}
	m_destroyed++;
''','''	bool room;
	{
		std::lock_guard<std::mutex> guard(m_mtxPool);
		room = m_pool.size() < MESSAGE_POOL_THRESHOLD;
	}
	if(room) {
		std::lock_guard<std::mutex> guard(m_mtxPool);
		m_pool.push_back(msg);
		return;
	}
	m_destroyed++;
''')
V('C05','bad',L,'	m_destroyed++;\n','')
V('C05','bad',L,'	m_destroyed++;\n','	m_unpooled--;\n')
V('C05','bad',L,'	m_unpooled++;\n','')
V('C05','bad',L,'	m_unpooled++;\n','	m_unpooled = m_unpooled + 1;\n')
V('C05','bad',L,'	m_unpooled++;\n','	size_t n = m_unpooled;\n	m_unpooled.store(n+1);\n')
V('C05','bad',L,'	m_msgReceived++;\n','')
V('C05','bad',L,'				listener->onMessage(*msg);'.replace('				','			',1),'			m_msgReceived++;\n			listener->onMessage(*msg);')
V('C05','bad',L,'	if(m_messages.size() > m_maxMsgQueueSize) {\n','	if(m_messages.size() > m_maxMsgQueueSize + 1) {\n')
V('C05','bad',L,'''	m_messages.push_back(msg);
	if(m_messages.size() > m_maxMsgQueueSize) {
		m_maxMsgQueueSize = m_messages.size();
	}
''','''	if(m_messages.size() > m_maxMsgQueueSize) {
		m_maxMsgQueueSize = m_messages.size();
	}
	m_messages.push_back(msg);
''')
V('C05','bad',L,'		m_maxMsgQueueSize = m_messages.size();\n','		m_maxMsgQueueSize++;\n')
V('C05','bad',L,'diags.m_msgsCreated = m_unpooled','diags.m_msgsCreated = m_destroyed')
V('C05','bad',L,'diags.m_pendingListeners = m_pendingListeners.size()','diags.m_pendingListeners = m_activeListeners.size()')
V('C05','bad',L,'[](const auto& l){return l->isEnabled();}','[](const auto& l){return !l->isEnabled();}')
V('C05','bad',L,'[](const auto& l){return l->isEnabled();}','[](const auto& l){return l->isDetached();}')
V('C05','bad',L,'diags.m_poolSize = m_pool.size();','diags.m_poolSize = m_messages.size();')
V('C05','bad',L,'		m_maxMsgQueueSize(0),','		m_maxMsgQueueSize(1),')
V('C05','same',L,'	m_unpooled++;\n	return new Message;','	Message* m = new Message;\n	m_unpooled.fetch_add(1);\n	return m;')
V('C05','same',L,'	if(m_messages.size() > m_maxMsgQueueSize) {\n		m_maxMsgQueueSize = m_messages.size();\n	}\n','	m_maxMsgQueueSize = std::max(m_maxMsgQueueSize, m_messages.size());\n')
V('C05','same',L,'	if(m_messages.size() > m_maxMsgQueueSize) {\n','	auto n = m_messages.size();\n	if(!(n <= m_maxMsgQueueSize)) {\n')
V('C05','same',L,'''		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
				[](const auto& l){return l->isEnabled();});
''','''		size_t n = 0;
		for(const auto& l: m_activeListeners) {
			if(l->isEnabled()) ++n;
		}
		diags.m_enabledListeners = n;
''')
V('C05','same',L,'	m_destroyed++;\n	delete msg;','	delete msg;\n	m_destroyed++;')
V('C05','same',L,'''		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(msg);
			return;
		}
''','''		size_t n = m_pool.size();
		if(n >= MESSAGE_POOL_THRESHOLD) {
			m_destroyed++;
			delete msg;
			return;
		}
		m_pool.push_back(msg);
		return;
''')
V('C05','same',L,'''	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
		m_pool.push_back(new Message);
	}
''','''	while(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
		m_pool.push_front(new Message);
	}
''')
# ---------------------------------------------------------------- C06 order
V('C06','bad',L,'	m_messages.push_back(msg);\n','	m_messages.push_front(msg);\n')
V('C06','bad',L,'		Message* msg = m_messages.front();\n		m_messages.pop_front();\n','		Message* msg = m_messages.back();\n		m_messages.pop_back();\n')
V('C06','bad',L,'	m_messages.push_back(msg);\n','	if(msg->m_level == LEVEL::CRITICAL) { m_messages.push_front(msg); } else\n	m_messages.push_back(msg);\n')
V('C06','bad',L,'	m_messages.push_back(msg);\n','	m_messages.push_back(msg);\n	std::sort(m_messages.begin(), m_messages.end());\n')
V('C06','bad',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
''','''	m_activeListeners.insert(m_activeListeners.begin(), m_pendingListeners.begin(), m_pendingListeners.end());
''')
V('C06','bad',L,'	m_pendingListeners.clear();','	m_pendingListeners.pop_back();')
V('C06','bad',L,'	m_pendingListeners.clear();\n','')
V('C06','bad',L,'	m_pendingListeners.push_back(l);\n','	m_pendingListeners.push_front(l);\n')
V('C06','bad',L,'	m_pendingListeners.push_back(l);\n','	if(m_pendingListeners.size() < 16) m_pendingListeners.push_back(l);\n')
V('C06','bad',L,'''		// Do we need to add new listeners?
		processNewListeners();

		// Now send the message
		sendMessageToListeners(msg);
''','''		// Now send the message
		sendMessageToListeners(msg);

		// Do we need to add new listeners?
		processNewListeners();
''')
V('C06','bad',L,'''		// Do we need to add new listeners?
		processNewListeners();
''','',L,'''	while(true) {
		std::unique_lock<std::mutex> msgl(m_mtxMessage);
''','''	while(true) {
		processNewListeners();
		std::unique_lock<std::mutex> msgl(m_mtxMessage);
''')
V('C06','bad',L,'''	std::lock_guard<std::mutex> guard(m_mtxListeners);
	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();
''','''	{
		std::lock_guard<std::mutex> guard(m_mtxListeners);
		std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	}
	std::lock_guard<std::mutex> guard(m_mtxListeners);
	m_pendingListeners.clear();
''')
V('C06','bad',L,'	for(auto listener: m_activeListeners) {\n','	for(auto it = m_activeListeners.rbegin(); it != m_activeListeners.rend(); ++it) {\n		auto& listener = *it;\n')
V('C06','bad',L,'			listener->onMessage(*msg);','			m_activeListeners.front()->onMessage(*msg);')
V('C06','same',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
''','''	for(const auto& l: m_pendingListeners) {
		m_activeListeners.push_back(l);
	}
''')
V('C06','same',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
''','''	for(auto l: m_pendingListeners) {
		m_activeListeners.push_back(l);
	}
''')
V('C06','same',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
''','''	m_activeListeners.insert(m_activeListeners.end(), m_pendingListeners.begin(), m_pendingListeners.end());
''')
V('C06','same',L,'''	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();
''','''	while(!m_pendingListeners.empty()) {
		m_activeListeners.push_back(m_pendingListeners.front());
		m_pendingListeners.pop_front();
	}
''')
V('C06','same',L,'''	std::lock_guard<std::mutex> guard(m_mtxListeners);
	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();
''','''	ListenerList fresh;
	{
		std::lock_guard<std::mutex> guard(m_mtxListeners);
		fresh.swap(m_pendingListeners);
	}
	std::lock_guard<std::mutex> guard(m_mtxListeners);
	for(auto& l: fresh) {
		m_activeListeners.push_back(l);
	}
''')
V('C06','same',L,'	for(auto listener: m_activeListeners) {\n','	for(size_t i = 0; i < m_activeListeners.size(); ++i) {\n		const auto& listener = m_activeListeners[i];\n')
V('C06','same',L,'	for(auto listener: m_activeListeners) {\n','	ListenerList copy(m_activeListeners);\n	for(auto& listener: copy) {\n')
V('C06','same',L,'''		Message* msg = m_messages.front();
		m_messages.pop_front();
''','''		Message* msg = m_messages[0];
		m_messages.erase(m_messages.begin());
''')
V('C06','same',L,'	m_messages.push_back(msg);\n','	m_messages.push_front(msg);\n',L,'		Message* msg = m_messages.front();\n		m_messages.pop_front();\n','		Message* msg = m_messages.back();\n		m_messages.pop_back();\n')
V('C06','same',L,'''		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();
''','''		m_msgReceived++;
		for(auto& listener: m_activeListeners) {
			if(listener->isEnabled() && !listener->isDetached() && listener->level() >= msg->m_level && listener->checkCategory(msg->m_category)) {
				listener->onMessage(*msg);
			}
		}
		cleanupTerminatedListeners();
''')
# ---------------------------------------------------------------- C07 delivery
SEND='''		if(listener->isEnabled()
				&& !listener->isDetached()
				&& listener->level() >= msg->m_level
				&& listener->checkCategory(msg->m_category))
		{
'''
V('C07','bad',L,'listener->level() >= msg->m_level','listener->level() > msg->m_level')
V('C07','bad',L,'listener->level() >= msg->m_level','listener->level() <= msg->m_level')
V('C07','bad',L,'				&& !listener->isDetached()\n','')
V('C07','bad',L,'if(listener->isEnabled()\n				&& !','if(!')
V('C07','bad',L,'				&& listener->checkCategory(msg->m_category))','				&& listener->checkCategory(msg->m_message))')
V('C07','bad',L,'				&& listener->checkCategory(msg->m_category))','				)')
V('C07','bad',L,'				&& listener->checkCategory(msg->m_category))','				&& (msg->m_level == CRITICAL || listener->checkCategory(msg->m_category)))')
V('C07','bad',L,'return std::regex_match(cat, m_catRegex);','return std::regex_search(cat, m_catRegex);')
V('C07','bad',L,'return std::regex_match(cat, m_catRegex);','return cat == m_category || std::regex_match(cat, m_catRegex);')
V('C07','bad',L,'return std::regex_match(cat, m_catRegex);','return !std::regex_match(cat, m_catRegex);')
V('C07','bad',L,'	  if(m_category == "") {\n		  return true;','	  if(m_category == "") {\n		  return false;')
V('C07','bad',L,'	  if(cat == "") return true;\n','')
V('C07','bad',L,'	  if(cat == "") return true;\n','	  if(cat == "") return false;\n')
V('C07','bad',L,'						return detached; }','						return !detached; }')
V('C07','bad',L,'						bool detached = listener->isDetached();','						bool detached = listener->isDetached() || !listener->isEnabled();')
V('C07','bad',L,'						bool detached = listener->isDetached();','						bool detached = !listener->isEnabled();')
V('C07','bad',L,'if (level > m_level) {','if (level >= m_level) {')
V('C07','bad',L,'if (level > m_level) {','if (level < m_level) {')
V('C07','bad',L,'''	std::lock_guard<std::mutex> guard(m_mtxMessage);
	m_messages.push_back(msg);
''','''	std::lock_guard<std::mutex> guard(m_mtxMessage);
	if(msg->m_level > m_level) { delete msg; return; }
	m_messages.push_back(msg);
''')
V('C07','bad',LH,'    	  m_enabled = mode;','    	  m_enabled = mode || m_detached;')
V('C07','bad',LH,'    	  m_enabled = mode;','    	  m_enabled = true;')
V('C07','bad',LH,'{m_detached = true;}','{m_detached = true; m_enabled = false;}')
V('C07','bad',LH,'		  m_enabled(true),\n','		  m_enabled(false),\n')
V('C07','bad',LH,'		  m_level(LEVEL::TRACE),','		  m_level(LEVEL::INFO),')
V('C07','bad',LH,'      bool isEnabled() const noexcept {return m_enabled;}','      bool isEnabled() const noexcept {return m_enabled && !m_detached;}')
V('C07','bad',L,'			listener->onMessage(*msg);\n','			listener->onMessage(*msg);\n			break;\n')
V('C07','bad',L,'			listener->onMessage(*msg);\n','			listener->onMessage(*msg);\n			if(listener->level() > msg->m_level) listener->onMessage(*msg);\n')
V('C07','bad',L,'''					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }),
			m_activeListeners.end());
''','''					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }));
''')
V('C07','same',L,SEND,'''		if(listener->checkCategory(msg->m_category)
				&& msg->m_level <= listener->level()
				&& !listener->isDetached()
				&& listener->isEnabled())
		{
''')
V('C07','same',L,SEND,'''		if(!listener->isEnabled() || listener->isDetached()) continue;
		LEVEL const lvl = listener->level();
		if(lvl < msg->m_level) continue;
		bool accepted = listener->checkCategory(msg->m_category);
		if(accepted)
		{
''')
V('C07','same',L,'	for(auto listener: m_activeListeners) {\n'+SEND+'''			listener->onMessage(*msg);
		}
	}
''','''	std::for_each(m_activeListeners.begin(), m_activeListeners.end(), [msg](const std::shared_ptr<Listener>& listener) {
		if(listener->isEnabled() && !listener->isDetached() && listener->level() >= msg->m_level && listener->checkCategory(msg->m_category)) {
			listener->onMessage(*msg);
		}
	});
''')
V('C07','same',L,'''	  if(cat == "") return true;
	  std::lock_guard<std::mutex> guard(m_mtxCategory);
	  if(m_category == "") {
		  return true;
	  }
	  return std::regex_match(cat, m_catRegex);
''','''	  std::lock_guard<std::mutex> guard(m_mtxCategory);
	  return cat.empty() || m_category.empty() || std::regex_match(cat.begin(), cat.end(), m_catRegex);
''')
V('C07','same',L,'''	m_activeListeners.erase(
			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }),
			m_activeListeners.end());
''','''	for(auto iter = m_activeListeners.begin(); iter != m_activeListeners.end(); ) {
		if((*iter)->isDetached()) {
			dismissed.push_back(*iter);
			iter = m_activeListeners.erase(iter);
		}
		else {
			++iter;
		}
	}
''')
V('C07','same',L,'''	// Ignore anything above our current log level.
	if (level > m_level) {
		return;
	}

	Message* msg = allocateMsg();
	msg->m_file = file;
	msg->m_line = line;
	msg->m_level = level;
	msg->m_category = cat;
	msg->m_message = message;
	log(msg);
''','''	if (level <= m_level.load()) {
		Message* msg = allocateMsg();
		msg->m_file = file;
		msg->m_line = line;
		msg->m_level = level;
		msg->m_category = cat;
		msg->m_message = message;
		log(msg);
	}
''')
V('C07','same',L,'''	m_msgReceived++;
	for(auto listener: m_activeListeners) {
'''+SEND,'''	m_msgReceived++;
	auto accepts = [msg](const Listener& l) {
		return l.isEnabled() && !l.isDetached() && l.level() >= msg->m_level && l.checkCategory(msg->m_category);
	};
	for(const auto& listener: m_activeListeners) {
		if(accepts(*listener))
		{
''')
V('C07','same',L,'''	m_activeListeners.erase(
			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }),
			m_activeListeners.end());
''','''	ListenerList kept;
	for(auto& listener: m_activeListeners) {
		if(listener->isDetached()) { dismissed.push_back(listener); } else { kept.push_back(listener); }
	}
	m_activeListeners.swap(kept);
''')
# ---------------------------------------------------------------- C08 category filter
CAT='''    	  // may throw in case of error
    	  try{
			  m_catRegex = std::regex(regex_cat);
			  m_category = regex_cat;
    	  }
    	  catch(const std::runtime_error& err) {
    		  throw InvalidCategory(err.what());
    	  }
'''
V('C08','bad',LH,'''			  m_catRegex = std::regex(regex_cat);
			  m_category = regex_cat;
''','''			  m_category = regex_cat;
			  m_catRegex = std::regex(regex_cat);
''')
V('C08','bad',LH,'			  m_category = regex_cat;\n','')
V('C08','bad',LH,'			  m_catRegex = std::regex(regex_cat);\n','			  if(m_category.empty()) m_catRegex = std::regex(regex_cat);\n			  else std::regex check(regex_cat);\n')
V('C08','bad',LH,'    		  throw InvalidCategory(err.what());\n','    		  (void) err;\n')
V('C08','bad',LH,'    		  throw InvalidCategory(err.what());\n','    		  m_category.clear(); throw InvalidCategory(err.what());\n')
V('C08','bad',LH,'    		  throw InvalidCategory(err.what());\n','    		  throw;\n')
V('C08','bad',LH,'    	  catch(const std::runtime_error& err) {','    	  catch(const std::logic_error& err) {')
V('C08','bad',LH,'''    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
'''+CAT,'''    	  std::regex re;
    	  try{
			  re = std::regex(regex_cat);
    	  }
    	  catch(const std::runtime_error& err) {
    		  throw InvalidCategory(err.what());
    	  }
    	  { std::lock_guard<std::mutex> guard(m_mtxCategory); m_catRegex = re; }
    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  m_category = regex_cat;
''')
V('C08','bad',LH,'m_catRegex = std::regex(regex_cat);','m_catRegex = std::regex(".*" + regex_cat);')
V('C08','bad',LH,'''    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  return m_category;''','''    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  return m_category.empty() ? ".*" : m_category;''')
V('C08','bad',LH,'			  m_category = regex_cat;\n','			  m_category = regex_cat;\n			  m_enabled = true;\n')
V('C08','bad',L,'''	  std::lock_guard<std::mutex> guard(m_mtxCategory);
	  if(m_category == "") {
		  return true;
	  }
''','''	  {
		  std::lock_guard<std::mutex> guard(m_mtxCategory);
		  if(m_category == "") {
			  return true;
		  }
	  }
	  std::lock_guard<std::mutex> guard(m_mtxCategory);
''')
V('C08','same',LH,'''    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
'''+CAT,'''    	  std::regex re;
    	  try{
			  re.assign(regex_cat);
    	  }
    	  catch(const std::regex_error& err) {
    		  throw InvalidCategory(err.what());
    	  }
    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  m_catRegex.swap(re);
    	  m_category = regex_cat;
''')
V('C08','bad',LH,'m_catRegex = std::regex(regex_cat);','m_catRegex = std::regex(regex_cat, std::regex::icase);')
V('C08','same',LH,'m_catRegex = std::regex(regex_cat);\n			  m_category = regex_cat;','std::regex compiled{regex_cat};\n			  m_catRegex = std::move(compiled);\n			  m_category.assign(regex_cat);')
V('C08','same',LH,'    	  std::lock_guard<std::mutex> guard(m_mtxCategory);\n    	  // may','    	  std::unique_lock<std::mutex> guard(m_mtxCategory);\n    	  // may')
V('C08','same',LH,'m_catRegex = std::regex(regex_cat);','m_catRegex = std::regex(regex_cat.begin(), regex_cat.end());')
V('C08','same',LH,'m_catRegex = std::regex(regex_cat);','m_catRegex = std::regex(regex_cat.c_str());')
V('C08','same',LH,'    	  return m_category;\n      }','    	  std::string copy(m_category);\n    	  return copy;\n      }')
# ---------------------------------------------------------------- C09 rendering
V('C09','bad',LS,'local_tm.tm_mon + 1','local_tm.tm_mon')
V('C09','bad',LS,'local_tm.tm_year +1900','local_tm.tm_year % 100')
V('C09','bad',LS,'localtime_r(&tt','gmtime_r(&tt')
V('C09','bad',LS,'local_tm.tm_hour','local_tm.tm_min')
V('C09','bad',LS,'''		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_min''','''		<< std::setw(2)
		<< std::setfill(' ') << local_tm.tm_min''')
V('C09','bad',LS,'''		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_sec''','''		<< local_tm.tm_sec''')
V('C09','bad',LS,'if(! msg.m_category.empty())','if(msg.m_category.empty())')
V('C09','bad',LS,'if(! msg.m_category.empty())','if(msg.m_level > 2 && ! msg.m_category.empty())')
V('C09','bad',LS,'"(" << msg.m_category','"(" << msg.m_file')
V('C09','bad',LS,'msg.m_file.rfind','msg.m_file.find')
V('C09','bad',LS,'substr(fpos+1)','substr(fpos)')
V('C09','bad',LS,'substr(fpos+1)','substr(fpos+1, 32)')
V('C09','bad',LS,'out << file <<','out << msg.m_file <<')
V('C09','bad',LS,'<< msg.m_line;','<< msg.m_line + 1;')
V('C09','bad',LS,'<< msg.m_message << "\\n"','<< msg.m_message')
V('C09','bad',LS,'	out.flush();\n','')
V('C09','bad',LS,'	out.flush();\n','	if(msg.m_level <= LogSystem::LEVEL::WARN) out.flush();\n')
V('C09','bad',LS,'''	out << " " << msg.m_message << "\\n";

	// TODO: add a flag to do this optionally
	out.flush();
''','''	out << " " << msg.m_message;
	out.flush();
	out << "\\n";
''')
V('C09','bad',LS,'''	std::lock_guard<std::mutex> guard(m_mtxStream);
	std::ostream& out = *m_pout;
''','''	m_mtxStream.lock();
	std::ostream& out = *m_pout;
	m_mtxStream.unlock();
	std::lock_guard<std::mutex> guard(m_mtxStream);
''')
V('C09','bad',LS,'''	out	<< "[" <<''','''	guard.unlock();
	guard.lock();
	out	<< "[" <<''',LS,'std::lock_guard<std::mutex> guard(m_mtxStream);','std::unique_lock<std::mutex> guard(m_mtxStream);')
V('C09','bad',LSH,'		m_uptrStream = std::move(out);\n		m_pout = m_uptrStream.get();','		m_pout = out.get();')
V('C09','bad',LSH,'		m_pstream = out;\n','')
V('C09','bad',LSH,'		m_pstream = out;\n		m_pout = out.get();','		m_pstream = std::move(out);\n		m_pout = out.get();')
V('C09','bad',LSH,'		m_pstream = out;\n		m_pout = out.get();','		if(!m_pstream) m_pout = out.get();\n		m_pstream = out;')
V('C09','bad',LSH,'		m_uptrStream = std::move(out);\n		m_pout = m_uptrStream.get();','		std::unique_ptr<std::ostream> mine = std::move(out);\n		m_pout = mine.get();')
V('C09','bad',LSH,'''	void writeOn(std::ostream* out) noexcept {
		std::lock_guard<std::mutex> guard(m_mtxStream);
''','''	void writeOn(std::ostream* out) noexcept {
''')
V('C09','bad',LSH,'std::ostream *m_pout{&m_dummy};','std::ostream *m_pout{&std::cout};',LSH,'namespace falcon {','#include <iostream>\nnamespace falcon {')
V('C09','bad',L,'return "ERR "','return "EROR"')
V('C09','bad',L,'	case LEVEL::TRACE: return "TRC ";\n','')
V('C09','bad',L,'return "????";','return "";')
V('C09','bad','include/falcon/logproxy.h','    	m_other->onMessage(msg);','    	if(m_other->isEnabled()) m_other->onMessage(msg);')
V('C09','same',LS,'''		<< local_tm.tm_year +1900 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mon + 1 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mday << ' '
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_hour << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_min  << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_sec  << ' '
		<< std::setw(0);''','''		<< std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S ");''')
V('C09','same',LS,'''		<< local_tm.tm_year +1900 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mon + 1 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mday << ' '
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_hour << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_min  << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_sec  << ' '
		<< std::setw(0);''','''		<< stamp;''',LS,'	size_t fpos','	char stamp[64];\n	strftime(stamp, sizeof(stamp), "%F %T ", &local_tm);\n	size_t fpos')
V('C09','same',LS,'''		<< local_tm.tm_year +1900 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mon + 1 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mday << ' '
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_hour << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_min  << ':'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_sec  << ' '
		<< std::setw(0);''','''		<< stamp;''',LS,'	size_t fpos','	char stamp[64];\n	snprintf(stamp, sizeof(stamp), "%d-%02d-%02d %02d:%02d:%02d ", local_tm.tm_year+1900, local_tm.tm_mon+1, local_tm.tm_mday, local_tm.tm_hour, local_tm.tm_min, local_tm.tm_sec);\n	size_t fpos')
V('C09','same',LS,'''	out	<< "[" << LogSystem::levelToString(msg.m_level) << "] ";
	if(! msg.m_category.empty()) {
		out << "(" << msg.m_category << ") ";
	}
	out << file << ':' << msg.m_line;
	out << " " << msg.m_message << "\\n";
''','''	std::string tag;
	if(msg.m_category.size() != 0) {
		tag = "(" + msg.m_category + ") ";
	}
	const char* lv = LogSystem::levelToString(msg.m_level);
	out	<< '[' << lv << "] " << tag << file << ":" << msg.m_line << ' ' << msg.m_message << std::endl;
''',LS,'	out.flush();\n','')
V('C09','same',LS,'''	std::string file;
	if (fpos != std::string::npos) {
		file = msg.m_file.substr(fpos+1);
	}
	else {
		file =  msg.m_file;
	}
''','''	std::string file(fpos == std::string::npos ? msg.m_file : msg.m_file.substr(fpos+1));
''')
V('C09','same',LS,'''	std::string file;
	if (fpos != std::string::npos) {
		file = msg.m_file.substr(fpos+1);
	}
	else {
		file =  msg.m_file;
	}
''','''	const std::string file = msg.m_file.substr(fpos+1);
''')
V('C09','same',LS,'''	std::lock_guard<std::mutex> guard(m_mtxStream);
	std::ostream& out = *m_pout;
''','''	std::ostringstream out;
''',LS,'''	out.flush();
''','''	std::lock_guard<std::mutex> guard(m_mtxStream);
	(*m_pout) << out.str();
	m_pout->flush();
''',LS,'#include <iomanip>','#include <iomanip>\n#include <sstream>')
V('C09','same',LS,'''namespace falcon {
''','''namespace falcon {

static std::ostream& two(std::ostream& out, int value) {
	return out << std::setfill('0') << std::setw(2) << value;
}
''',LS,'''		<< local_tm.tm_year +1900 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mon + 1 << '-'
		<< std::setfill('0') << std::setw(2)
		<< local_tm.tm_mday << ' '
''','''		<< local_tm.tm_year +1900 << '-';
	two(out, local_tm.tm_mon + 1) << '-';
	two(out, local_tm.tm_mday) << ' '
''')
V('C09','same',LSH,'		m_pstream = out;\n		m_pout = out.get();','		m_pout = out.get();\n		m_pstream = std::move(out);')
V('C09','same',LSH,'		m_pstream = out;\n		m_pout = out.get();','		m_pstream.swap(out);\n		m_pout = m_pstream.get();')
V('C09','same',LSH,'		m_uptrStream = std::move(out);\n','		m_uptrStream.reset(out.release());\n')
V('C09','same',L,'''	switch(lvl) {
	case LEVEL::CRITICAL: return "CRIT";
	case LEVEL::ERROR: return "ERR ";
	case LEVEL::WARN: return "WARN";
	case LEVEL::INFO: return "INFO";
	case LEVEL::DEBUG: return "DBG ";
	case LEVEL::TRACE: return "TRC ";
	}

	return "????";
''','''	static const char* const names[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC "};
	if(lvl >= LEVEL::CRITICAL && lvl <= LEVEL::TRACE) {
		return names[lvl];
	}
	return "????";
''')
V('C09','same',L,'''	switch(lvl) {
	case LEVEL::CRITICAL: return "CRIT";
	case LEVEL::ERROR: return "ERR ";
''','''	if(lvl == LEVEL::CRITICAL) return "CRIT";
	switch(lvl) {
	case LEVEL::ERROR: return "ERR ";
''')

# ---------------------------------------------------------------- C10
V('C10','bad',GH,'	static thread_local std::ostringstream m_composer;','	static std::ostringstream m_composer;',G,'thread_local std::ostringstream Logger::m_composer;','std::ostringstream Logger::m_composer;')
V('C10','bad',GH,'	static thread_local std::string m_tempCategory;','	static std::string m_tempCategory;',G,'thread_local std::string Logger::m_tempCategory{""};','std::string Logger::m_tempCategory{""};')
V('C10','bad',GH,'	static thread_local int m_msgLine;','	static int m_msgLine;',G,'thread_local int Logger::m_msgLine{0};','int Logger::m_msgLine{0};')
V('C10','bad',GH,'			m_tempCategory.clear();\n		}\n		readyStream();','		}\n		readyStream();')
V('C10','bad',GH,'		if(m_tempCategory.empty()) {','		if(m_category.empty()) {')
V('C10','bad',GH,'		if(m_tempCategory.empty()) {','		if(!m_tempCategory.empty()) {')
V('C10','bad',GH,'			m_tempCategory.clear();\n		}\n		readyStream();','			m_category = m_tempCategory;\n			m_tempCategory.clear();\n		}\n		readyStream();')
V('C10','bad',GH,'		m_composer.str("");\n','')
V('C10','bad',GH,'		m_composer.clear();\n','')
V('C10','bad',GH,'		m_composer.copyfmt(std::ios(nullptr));\n','')
V('C10','bad',GH,'		m_composer.copyfmt(std::ios(nullptr));\n','		m_composer.flags(std::ios::fmtflags());\n')
V('C10','bad',GH,'		readyStream();\n	}\n\n	void setLevel','	}\n\n	void setLevel')
V('C10','bad',GH,'			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());','			log(m_msgFile, m_msgLine, LLINFO, m_category, m_composer.str());')
V('C10','bad',GH,'			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());','			log(m_msgFile, m_msgLine + 1, m_msgLevel, m_category, m_composer.str());')
V('C10','bad',GH,'		m_tempCategory = category;','		m_category = category;')
V('C10','bad',GH,'		m_tempCategory = category;','		m_tempCategory += category;')
V('C10','bad',GH,'		m_msgLevel = lvl;','		if(lvl > m_msgLevel) m_msgLevel = lvl;')
V('C10','bad',GH,'		m_composer << v;\n','		m_composer << v << v;\n')
V('C10','bad',GH,'	void commit()\n	{\n','	void commit()\n	{\n		if(m_composer.str().empty()) return;\n')
V('C10','bad',GH,'	void commit()\n	{\n','	void commit()\n	{\n		static std::string last;\n		if(m_composer.str() == last) return;\n		last = m_composer.str();\n')
V('C10','same',GH,'''		if(m_tempCategory.empty()) {
			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());
		}
		else {
			log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str());
			m_tempCategory.clear();
		}
		readyStream();''','''		const std::string text = m_composer.str();
		log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory.empty() ? m_category : m_tempCategory, text);
		m_tempCategory.clear();
		readyStream();''')
V('C10','same',GH,'''		if(m_tempCategory.empty()) {
			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());
		}
		else {
			log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str());
			m_tempCategory.clear();
		}
		readyStream();''','''		std::string text = m_composer.str();
		readyStream();
		std::string cat;
		cat.swap(m_tempCategory);
		if(cat.size() == 0) {
			cat = m_category;
		}
		log(m_msgFile, m_msgLine, m_msgLevel, cat, text);''')
V('C10','same',GH,'		if(m_tempCategory.empty()) {','		if(m_tempCategory == "") {')
V('C10','same',GH,'		if(m_tempCategory.empty()) {','		if(m_tempCategory.length() == 0) {')
V('C10','same',GH,'''		if(m_tempCategory.empty()) {
			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());
		}
		else {
			log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str());
			m_tempCategory.clear();
		}
''','''		const std::string& cat = m_tempCategory.empty() ? m_category : m_tempCategory;
		log(m_msgFile, m_msgLine, m_msgLevel, cat, m_composer.str());
		if(!m_tempCategory.empty()) {
			m_tempCategory.clear();
		}
''')
V('C10','same',GH,'''		m_composer.clear();
		m_composer.str("");
		m_composer.copyfmt(std::ios(nullptr));
''','''		std::ostringstream fresh;
		m_composer.swap(fresh);
''')
V('C10','same',GH,'''		m_composer.clear();
		m_composer.str("");
		m_composer.copyfmt(std::ios(nullptr));
''','''		m_composer = std::ostringstream();
''')
V('C10','same',GH,'''		m_composer.clear();
		m_composer.str("");
		m_composer.copyfmt(std::ios(nullptr));
''','''		m_composer.str(std::string());
		m_composer.copyfmt(std::ostringstream());
		m_composer.clear();
''')
V('C10','same',GH,'		m_msgFile = file;','		m_msgFile.assign(file);')
V('C10','same',GH,'		m_tempCategory = category;','		std::string copy(category);\n		m_tempCategory.swap(copy);')
# ---------------------------------------------------------------- C11
V('C11','bad',GH,'''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''','''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() > lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''')
V('C11','bad',GH,'''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''','''	    	if(obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''')
V('C11','bad',GH,'''	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''','''	    	}
	    	m_obj = &obj;
	    }

	    ~AutoEnd''')
V('C11','bad',GH,'''	if (aes.doLog()) {
		aes.obj() << std''','''	{
		(aes.doLog() ? aes.obj() : Logger::instance()) << std''')
V('C11','bad',GH,'    if(aes.doLog()) {\n    	aes.obj().setT','    {\n    	Logger::instance().setT')
V('C11','bad',GH,'    	aes.obj().setTempCategory(cat.m_cat);','    	aes.obj().setCategory(cat.m_cat);')
V('C11','bad',GH,'if(m_obj){m_obj->m_tempCategory.clear(); m_obj->readyStream();}','if(m_obj){m_obj->readyStream();}')
V('C11','bad',GH,'if(m_obj){m_obj->m_tempCategory.clear(); m_obj->readyStream();}','if(m_obj){m_obj->m_tempCategory.clear();}')
V('C11','bad',GH,'if(m_obj){m_obj->m_tempCategory.clear(); m_obj->readyStream();}','if(m_obj){m_obj->commit();}')
V('C11','bad',GH,'{Logger* obj = m_obj; m_obj = nullptr; obj->commit();}','{m_obj->commit();}')
V('C11','bad',GH,'{Logger* obj = m_obj; m_obj = nullptr; obj->commit();}','{m_obj = nullptr;}')
V('C11','bad',GH,'#define LOG_DBG  LOG(::falcon::LLDEBUG)','#define LOG_DBG  LOG(::falcon::LLINFO)')
V('C11','bad',GH,'#define LOG_BLOCK_WARN LOG_BLOCK(::falcon::LLWARN)','#define LOG_BLOCK_WARN LOG_BLOCK(::falcon::LLERR)')
V('C11','bad',GH,'{if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){','{if(LOGGER.level() > 2 && FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){')
V('C11','bad',GH,'{if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){','{if(FALCON_MIN_LOG_LEVEL > ::falcon::LLWARN){')
V('C11','bad',GH,'''	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''','''	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''')
V('C11','bad',GH,'''	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''','''	    		obj.setLine(line-1);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''')
V('C11','bad',GH,'''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''','''	    	obj.setFile(file);
	    	obj.setLine(line);
	    	obj.setLevel(lvl);
	    	m_obj = &obj;
	    }
	    ~BlockEnd''')
V('C11','same',GH,'''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd''','''	    	if(lvl > obj.level() || lvl > FALCON_MIN_LOG_LEVEL) {
	    		return;
	    	}
	    	m_obj = &obj;
	    	m_obj->setLevel(lvl);
	    	m_obj->setLine(line);
	    	m_obj->setFile(file);
	    }

	    ~AutoEnd''')
V('C11','same',GH,'''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }
	    ~BlockEnd''','''	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
	    		start(obj, file, line, lvl);
	    	}
	    }
	    void start(Logger& obj, const std::string& file, int line, LOGLEVEL lvl) {
	    	obj.setFile(file);
	    	obj.setLine(line);
	    	obj.setLevel(lvl);
	    	m_obj = &obj;
	    }
	    ~BlockEnd''')
V('C11','same',GH,'		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \\','		FALCON_MIN_LOG_LEVEL >= lvl && __ender; \\')
V('C11','same',GH,'{Logger* obj = m_obj; m_obj = nullptr; obj->commit();}','{if(m_obj == nullptr) return; Logger& obj = *m_obj; m_obj = nullptr; obj.commit();}')
V('C11','same',GH,'	    ~AutoEnd () {if(m_obj){m_obj->commit();}}','	    ~AutoEnd () {if(doLog()) {obj().commit();}}')
V('C11','same',GH,'#define LOG_CATEGORY(__CAT) do {if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){LOGGER.setCategory(__CAT);}} while(0)','#define LOG_CATEGORY(__CAT) do {if(FALCON_MIN_LOG_LEVEL != ::falcon::LLDISABLE){LOGGER.setCategory(__CAT);}} while(false)')
V('C11','same',GH,'		category_manipulator(const std::string& cat):\n			m_cat{cat}\n		{}','		category_manipulator(std::string cat):\n			m_cat(std::move(cat))\n		{}')
V('C11','same',GH,'''	if (aes.doLog()) {
		aes.obj() << std::forward<T>(arg);
	}
    return aes;''','''	if (!aes.doLog()) {
		return aes;
	}
	const Logger& target = aes.obj();
	target << std::forward<T>(arg);
    return aes;''')
# ---------------------------------------------------------------- C12
V('C12','bad',G,'		level(m_proxyBaseLevel);\n		m_dflt->level(m_dfltBaseLevel);','		level(m_proxyBaseLevel);')
V('C12','bad',G,'		level(m_proxyBaseLevel);\n		m_dflt->level(m_dfltBaseLevel);','		m_dflt->level(m_dfltBaseLevel);')
V('C12','bad',G,'		level(m_proxyBaseLevel);\n		m_dflt->level(m_dfltBaseLevel);','		level(m_dfltBaseLevel);\n		m_dflt->level(m_proxyBaseLevel);')
V('C12','bad',G,'	clearFilter();\n	m_proxy = proxy;','	m_proxy = proxy;')
V('C12','bad',G,'	clearFilter();\n	m_proxy = proxy;\n	m_proxyBaseLevel = level();','	m_proxyBaseLevel = level();\n	clearFilter();\n	m_proxy = proxy;')
V('C12','bad',G,'	if(l > m_proxyBaseLevel) {\n','	{\n')
V('C12','bad',G,'			m_dflt->level(m_proxyBaseLevel);\n','			m_dflt->level(l);\n')
V('C12','bad',G,'		if(m_dfltBaseLevel > m_proxyBaseLevel) {\n','		{\n')
V('C12','bad',G,'		m_proxy->detach();\n','')
V('C12','bad',G,'		m_proxy->detach();\n		m_proxy.reset();','		m_proxy->detach();')
V('C12','bad',G,'	if(l > m_proxyBaseLevel) {','	if(l > m_dfltBaseLevel) {')
V('C12','bad',G,'	proxy->level(l);\n','')
V('C12','bad',G,'	proxy->category(category);\n','')
V('C12','bad',G,'	auto proxy = std::make_shared<LogProxyListener>(m_dflt);\n	proxy->category(category);\n	proxy->level(l);\n\n	clearFilter();','	clearFilter();\n	auto proxy = std::make_shared<LogProxyListener>(m_dflt);\n	proxy->category(category);\n	proxy->level(l);\n')
V('C12','bad',G,'	addListener(m_proxy);\n','')
V('C12','bad',GH,'LOGLEVEL l=LLTRACE','LOGLEVEL l=LLDEBUG')
V('C12','bad',G,'	auto proxy = std::make_shared<LogProxyListener>(m_dflt);\n	proxy->category(category);\n','	auto proxy = std::make_shared<LogProxyListener>(m_dflt);\n	try { proxy->category(category); } catch(const InvalidCategory&) { return; }\n')
V('C12','bad',G,'		m_proxy->detach();\n','		m_dflt->detach();\n')
V('C12','same',G,'''	clearFilter();
	m_proxy = proxy;
	m_proxyBaseLevel = level();
	m_dfltBaseLevel = m_dflt->level();
	if(l > m_proxyBaseLevel) {
		if(m_dfltBaseLevel > m_proxyBaseLevel) {
			m_dflt->level(m_proxyBaseLevel);
		}
		level(l);
	}
''','''	clearFilter();
	m_proxy = proxy;
	const LOGLEVEL base = level();
	m_proxyBaseLevel = base;
	m_dfltBaseLevel = m_dflt->level();
	if(base < l) {
		m_dflt->level(std::min(m_dfltBaseLevel, base));
		level(l);
	}
''',G,'#include <falcon/logger.h>','#include <falcon/logger.h>\n#include <algorithm>')
V('C12','same',G,'''	if(l > m_proxyBaseLevel) {
		if(m_dfltBaseLevel > m_proxyBaseLevel) {
			m_dflt->level(m_proxyBaseLevel);
		}
		level(l);
	}
''','''	if(l > m_proxyBaseLevel && m_dfltBaseLevel > m_proxyBaseLevel) {
		m_dflt->level(m_proxyBaseLevel);
	}
	if(level() < l) {
		level(l);
	}
''')
V('C12','same',G,'''	if(l > m_proxyBaseLevel) {
		if(m_dfltBaseLevel > m_proxyBaseLevel) {
			m_dflt->level(m_proxyBaseLevel);
		}
		level(l);
	}
''','''	if(l > m_proxyBaseLevel) {
		if(m_dfltBaseLevel > m_proxyBaseLevel) {
			m_dflt->level(m_proxyBaseLevel);
		}
	}
	level(std::max(l, m_proxyBaseLevel));
''',G,'#include <falcon/logger.h>','#include <falcon/logger.h>\n#include <algorithm>')
V('C12','same',G,'''	if (m_proxy.get()) {
		m_proxy->detach();
		m_proxy.reset();
		level(m_proxyBaseLevel);
		m_dflt->level(m_dfltBaseLevel);
	}
''','''	if (!m_proxy) {
		return;
	}
	level(m_proxyBaseLevel);
	m_dflt->level(m_dfltBaseLevel);
	std::shared_ptr<LogProxyListener> old;
	old.swap(m_proxy);
	old->detach();
''')
V('C12','same',G,'		m_proxy.reset();','		m_proxy = nullptr;')
V('C12','same',G,'	m_proxy = proxy;\n','	m_proxy = std::move(proxy);\n')
V('C12','same',G,'	clearFilter();\n	m_proxy = proxy;','	clearFilter();\n	addListener(proxy);\n	m_proxy = proxy;',G,'	addListener(m_proxy);\n','')
V('C12','same',G,'	auto proxy = std::make_shared<LogProxyListener>(m_dflt);','	std::shared_ptr<LogProxyListener> proxy(new LogProxyListener(m_dflt));')
