package cmd_hound

// Main runs the command.
func Main() { main() }
