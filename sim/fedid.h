extern int prog_fed_id; // the federate's id is chosen at run time
