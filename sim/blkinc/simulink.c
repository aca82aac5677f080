/* nothing: the simulator calls the functions of the block itself */
