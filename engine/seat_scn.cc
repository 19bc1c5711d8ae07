#include "seat.h"
SCENARIO("seat", SeatScn)
