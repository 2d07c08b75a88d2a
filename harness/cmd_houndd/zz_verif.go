package cmd_houndd

// Main runs the command.
func Main() { main() }
