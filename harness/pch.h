#include "types.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
