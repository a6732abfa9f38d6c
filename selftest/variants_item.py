I='include/falcon/engine/item.h'; D='include/falcon/engine/itemdata.h'; H='include/falcon/engine/'; C='engine/code.cpp'
# ownership
V('C24','bad',I,'data(other.handler->clone(other.data)), handler(other.handler)','data(other.data), handler(other.handler)')
V('C24','bad',I,'        handler->destroy(data);','        if(!handler->isFlat() && !handler->isCopyFlat()) handler->destroy(data);')
V('C24','bad',I,'        Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);','        handler->destroy(data); data = other.handler->clone(other.data); handler = other.handler;')
V('C24','bad',I,'        Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);','        if(&other != this) {handler->destroy(data); data = other.handler->clone(other.data); handler = other.handler;}')
V('C24','bad',I,'        Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);','        data = other.handler->clone(other.data); handler = other.handler;')
V('C24','bad',I,'        Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);','        if(handler == other.handler) { ItemData d = other.handler->clone(other.data); if(!handler->isFlat()) data = d; else data = d; return *this; } Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);')
V('C24','bad',H+'deephandler.h','delete reinterpret_cast<T *>(data.ptrValue);','operator delete(data.ptrValue);')
V('C24','bad',H+'deephandler.h','return new T(*reinterpret_cast<T *>(data.ptrValue));','return data;')
V('C24','bad',H+'deephandler.h','return new T(*reinterpret_cast<T *>(data.ptrValue));','return new T;')
V('C24','bad',H+'stringhandler.h','    String typeName()','    void destroy(ItemData data) const noexcept override { static_cast<String*>(data.ptrValue)->clear(); }\n    String typeName()')
V('C24','bad',D,'ptrValue = static_cast<void*>(const_cast<T*>(&value));','ptrValue = static_cast<void*>(const_cast<T*>(&value));',D,'            ptrValue = const_cast<void*>(static_cast<const void*>(value));','            ptrValue = static_cast<void*>(const_cast<T*>(&value));')
V('C24','same',I,'        Item copy(other);\n        std::swap(data, copy.data);\n        std::swap(handler, copy.handler);','        ItemData d = other.handler->clone(other.data); Handler* h = other.handler; handler->destroy(data); data = d; handler = h;')
V('C24','same',I,'        Item copy(other);','        if(this == &other) { return *this; }\n        Item copy(other);')
V('C24','same',I,'    ~Item() {','    Item(Item&& other) : data(other.data), handler(other.handler) { other.data = ItemData(nullptr); other.handler = &HandlerFactory::nilHandler; }\n    ~Item() {')
V('C24','bad',I,'    ~Item() {','    Item(Item&& other) : data(other.data), handler(other.handler) { other.data = ItemData(nullptr); }\n    Item(Item&& other, int) = delete;\n    ~Item() {',I,'        handler->destroy(data);','        if(data.ptrValue == nullptr) { return; } if(handler == &HandlerFactory::stringHandler) handler->destroy(data);')
V('C24','same',I,'        handler->destroy(data);','        if(handler != &HandlerFactory::nilHandler) { handler->destroy(data); }')
V('C24','same',H+'deephandler.h','return new T(*reinterpret_cast<T *>(data.ptrValue));','T* original = static_cast<T*>(data.ptrValue); T* copy = new T(*original); return copy;')
# round trip
V('C25 C27','bad',D,'uint64Value = static_cast<uint64>(value);\n        } else if constexpr (std::is_same_v<T, uint64>)','uint64Value = static_cast<uint64>(static_cast<int32>(value));\n        } else if constexpr (std::is_same_v<T, uint64>)')
V('C25 C27','bad',D,'int64Value = static_cast<int64>(value);\n        } else if constexpr (std::is_same_v<T, int64>)','uint64Value = static_cast<uint32>(value);\n        } else if constexpr (std::is_same_v<T, int64>)')
V('C25','bad',D,'        } else if constexpr (std::is_same_v<T, byte>) {\n            int64Value = static_cast<int64>(value);','        } else if constexpr (std::is_same_v<T, byte>) {\n            int64Value = static_cast<int8>(value);')
V('C25','bad',D,'numericValue = value;','numericValue = static_cast<float>(value);')
V('C25','bad',D,'boolValue = value;','int64Value = 0; numericValue = value;')
V('C25','bad',I,'return data.int64Value;','return static_cast<int32>(data.int64Value);')
V('C25','bad',I,'handler = &HandlerFactory::floatHandler;','handler = &HandlerFactory::intHandler;')
V('C25','bad',I,'        } else if constexpr (std::is_same_v<T, uint32>) {\n            data = ItemData(value);\n            handler = &HandlerFactory::intHandler;','        } else if constexpr (std::is_same_v<T, uint32>) {\n            data = ItemData(value);\n            handler = &HandlerFactory::floatHandler;')

V('C25 C27 C24','same',I,'            data.ptrValue = new String(value);\n            handler = &HandlerFactory::stringHandler;','            handler = &HandlerFactory::stringHandler;\n            data = ItemData(new String(value));')
V('C25 C27','same',D,'uint64Value = static_cast<uint64>(value);','int64Value = value;')
# conversions
V('C27','bad',H+'inthandler.h','ss << data.int64Value;','ss << data.uint64Value;')
V('C27','bad',H+'inthandler.h','return data.int64Value != 0;','return data.int64Value > 0;')
V('C27','bad',H+'inthandler.h','return data.int64Value;}','return static_cast<int32>(data.int64Value);}')
V('C27','bad',H+'floathandler.h','ss << data.numericValue;','ss << data.numericValue << "";\n      ss.precision(17);\n      ss.str("");\n      ss << std::fixed << data.numericValue;')
V('C27','bad',H+'floathandler.h','data.numericValue != 0.0','static_cast<int64>(data.numericValue) != 0')
V('C27','bad',H+'floathandler.h','static_cast<int64>(data.numericValue)','static_cast<int32>(data.numericValue)')
V('C27','bad',H+'stringhandler.h','std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10)','std::stoll(*reinterpret_cast<String *>(data.ptrValue))')
V('C27','bad',H+'stringhandler.h','nullptr, 10)','nullptr, 0)')
V('C27','bad',H+'stringhandler.h','!reinterpret_cast<String *>(data.ptrValue)->empty()','*reinterpret_cast<String *>(data.ptrValue) != "0"')
V('C27','bad',H+'boolhandler.h','"true" : "false"','"1" : "0"')
V('C27','bad',H+'boolhandler.h','? 1LL : 0LL','? -1LL : 0LL')
V('C27','bad',H+'nilhandler.h','return "nil"','return ""')
V('C27','bad',H+'bignumhandler.h','->convert_to<int64>()','->convert_to<int32>()')
V('C27','bad',H+'deepflatcopyhandler.h','return true;','return false;')
V('C27','bad',H+'stringhandler.h','return "String"','return "Str"')
V('C27','same',H+'inthandler.h','      std::ostringstream ss;\n      ss << data.int64Value;\n      return ss.str();','      return std::to_string(data.int64Value);')
V('C27','same',H+'boolhandler.h','return data.boolValue ? "true" : "false";','if(data.boolValue) { return "true"; } return "false";')
V('C27','same',H+'boolhandler.h','data.boolValue ? 1LL : 0LL','static_cast<int64>(data.boolValue)')
V('C27','same',H+'inthandler.h','return data.int64Value != 0;','return static_cast<bool>(data.int64Value);')
V('C27','same',H+'stringhandler.h','!reinterpret_cast<String *>(data.ptrValue)->empty()','static_cast<String*>(data.ptrValue)->size() > 0')
V('C27','same',H+'floathandler.h','return data.numericValue != 0.0;','return !(data.numericValue == 0.0);')
V('C27','same',H+'stringhandler.h','int64 toInt(ItemData data) const noexcept override { return','int64 toInt(ItemData data) const noexcept override { const String& s = *static_cast<String*>(data.ptrValue); if(s.empty()) return 0; return')
# code
V('C28','bad',C,'new char[source.size()+1]','new char[source.size()]')
V('C28','bad',C,'	m_data[m_source.size()] = 0;\n','')
V('C28','bad',C,'	delete[] m_data;','	delete m_data;')
V('C28','bad',C,'	delete[] m_data;\n','')
V('C28','bad',C,'	other.m_data = nullptr;\n','')
V('C28','bad',C,'m_data ? std::string(m_data) : std::string()','std::string(m_data)')
V('C28','bad',C,'		Code(other.m_source, other.m_line)\n','		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)\n')
V('C28','bad',C,'	Code copy(other);\n	std::swap(m_source, copy.m_source);\n	std::swap(m_line, copy.m_line);\n	std::swap(m_data, copy.m_data);\n','	m_source = other.m_source;\n	m_line = other.m_line;\n	delete[] m_data;\n	m_data = new char[m_source.size()+1];\n	std::copy(other.m_data, other.m_data + m_source.size() + 1, m_data);\n')
V('C28','bad',C,'	Code copy(other);\n	std::swap(m_source, copy.m_source);\n	std::swap(m_line, copy.m_line);\n	std::swap(m_data, copy.m_data);\n','	m_source = other.m_source;\n	m_line = other.m_line;\n	std::copy(other.m_source.data(), other.m_source.data() + m_source.size() + 1, m_data);\n')
V('C28','bad',C,'	std::swap(m_data, copy.m_data);\n','')
V('C28','same',C,'	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);\n	m_data[m_source.size()] = 0;','	std::copy(m_source.c_str(), m_source.c_str() + m_source.size() + 1, m_data);')
V('C28','same',C,'	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);\n	m_data[m_source.size()] = 0;','	std::memcpy(m_data, source.c_str(), source.size() + 1);',C,'#include <utility>','#include <utility>\n#include <cstring>')
V('C28','same',C,'	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);\n	m_data[m_source.size()] = 0;','	std::size_t i = 0;\n	for(; i < m_source.size(); ++i) { m_data[i] = m_source[i]; }\n	m_data[i] = 0;')
V('C28','same',C,'	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);\n	m_data[m_source.size()] = 0;','	char* p = m_data;\n	for(char ch: m_source) { *p++ = ch; }\n	*p = 0;')
V('C28','bad',C,'	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);\n	m_data[m_source.size()] = 0;','	std::size_t i = 0;\n	for(; i <= m_source.size(); ++i) { m_data[i] = m_source[i]; }\n	m_data[i] = 0;')
V('C28','same',C,'	delete[] m_data;','	if(m_data != nullptr) { delete[] m_data; }')
V('C28','same',C,'m_data ? std::string(m_data) : std::string()','m_data ? m_source : std::string()')
V('C28','same',C,'		m_source(std::move(other.m_source)),\n		m_line(other.m_line), m_data(other.m_data)\n{\n	other.m_data = nullptr;','		m_source(std::move(other.m_source)),\n		m_line(other.m_line), m_data(std::exchange(other.m_data, nullptr))\n{')
