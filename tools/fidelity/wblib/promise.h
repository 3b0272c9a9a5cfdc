#pragma once
#include <future>
#include <memory>
namespace WBMQTT
{
    template<class T> class TPromise;
    template<> class TPromise<void>
    {
        std::promise<void> P;
        bool Done = false;

    public:
        struct F
        {
            std::shared_future<void> S;
            void Sync()
            {
                S.wait();
            }
            void Wait()
            {
                S.wait();
            }
        };
        bool IsFulfilled() const
        {
            return Done;
        }
        void Complete()
        {
            Done = true;
            P.set_value();
        }
        F GetFuture()
        {
            return F{P.get_future().share()};
        }
    };
}
