/* no accelerated instructions */
