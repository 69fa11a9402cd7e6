#include "mc.h"
#include "msched.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
MC_SCENARIO("race", 0, 2) { int x=0; std::thread t([&]{x++;}); x++; t.join(); mc::nontrivial(); }
MC_SCENARIO("ok", 2, 2) { int x=0; std::mutex m; std::thread t([&]{std::scoped_lock l(m);x++;}); {std::scoped_lock l(m);x++;} t.join(); MC_CHECK(x==2,"x",""); mc::nontrivial(); }
MC_SCENARIO("dl", 2, 2) { std::mutex a,b; std::thread t([&]{std::scoped_lock l(a);std::scoped_lock k(b);}); {std::scoped_lock l(b);std::scoped_lock k(a);} t.join();  mc::nontrivial(); }
MC_SCENARIO("uaf", 2, 2) { auto p=new int(3); delete p; volatile int y=*p; (void)y; mc::nontrivial(); }
MC_SCENARIO("cv", 2, 2) { std::mutex m; std::condition_variable c; bool r=false; std::thread t([&]{std::unique_lock l(m); c.wait(l,[&]{return r;});}); {std::scoped_lock l(m); r=true;} c.notify_one(); t.join(); mc::nontrivial(); }
MC_SCENARIO("sp", 2, 2) { auto s=std::make_shared<int>(1); std::thread t([s]{ }); s.reset(); t.join(); mc::nontrivial(); }
