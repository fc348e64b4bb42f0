module github.com/charmbracelet/x/term

go 1.18
