// Fault injection: the k-th allocation (and, if persistent, all that follow) fails while armed.
// Included before the library's headers: their calls of malloc, calloc and realloc go through it; so does operator new.
#ifndef FAULT_HPP
#define FAULT_HPP
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <functional>
#include <thread>
#include <mutex>

namespace fault {
extern bool armed, persistent, hit; extern unsigned long count, at;    // at: number of the allocation that fails, 0: none
inline bool now(){ if (!armed) return false; ++count; if (at && (count==at || (persistent && count>at))) { hit=true; return true; } return false; }
inline void plan( unsigned long at_, bool persistent_){ at=at_; persistent=persistent_; hit=false; count=0; armed=false; }
struct On { bool was; On():was(armed){armed=true;} ~On(){armed=was;} };
}
inline void* pbt_malloc( size_t n){ return fault::now()?0:malloc(n); }
inline void* pbt_calloc( size_t n, size_t m){ return fault::now()?0:calloc(n,m); }
inline void* pbt_realloc( void* p, size_t n){ return fault::now()?0:realloc(p,n); }
namespace std { using ::pbt_malloc; using ::pbt_calloc; using ::pbt_realloc; }
#define malloc pbt_malloc
#define calloc pbt_calloc
#define realloc pbt_realloc
#endif
