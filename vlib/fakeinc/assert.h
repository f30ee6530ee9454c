#include "_fake.h"
