// stands in for the generated version file
char fullock_commit_hash[] = "check";
