#include "clusterrun.h"
void mc::registerScenarios() {
    cl::scenarios(cl::DATA);
    Options o; o.concurrent = true; o.preemptFree = false; o.maxSteps = 2000000; o.bounds = {0, 1};
    static const char* names[] = {"a node starts", "the leader stands down", "the leader gets a low priority", "the leader stops", "a follower is lost and comes back", "a follower gets the highest priority"};
    Options deep = o; deep.bounds = {0, 1, 2};
    if (thorough()) for (int s = 0; s < 6; s++) add(string("committing threads while ") + names[s], [s] { cl::races(0, s, cl::DATA | cl::CONVERGE, false); }, deep);
    for (int s = 0; s < 6; s++) add(string("committing threads, at every lock and atomic, while ") + names[s], [s] { cl::races(0, s, cl::DATA | cl::CONVERGE, true); }, o);
}
