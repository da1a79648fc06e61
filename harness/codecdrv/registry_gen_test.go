package codecdrv

import "github.com/savaki/kafka/message"

// replaced at check time by the types found in the working tree
var registry = map[string]func() msg{
	"HeartbeatRequest": func() msg { return &message.HeartbeatRequest{} },
}
