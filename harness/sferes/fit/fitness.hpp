#include "../standin.hpp"
