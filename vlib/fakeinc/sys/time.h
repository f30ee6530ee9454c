#include "../_fake.h"
