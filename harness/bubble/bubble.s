// run is implemented in the runtime
