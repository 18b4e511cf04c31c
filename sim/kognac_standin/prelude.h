// Forced include: the standard headers that KOGNAC's own headers drag in for trident's sources.
#ifdef __cplusplus
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <climits>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <queue>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <thread>
#include <mutex>
#include <chrono>
#include <condition_variable>
#include <random>
#include <numeric>
#include <array>
#include <limits>
#include <assert.h>
using namespace std; // as KOGNAC headers do
class TripleWriter;
#endif
