package scte35

// The command line tool.

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

func specCLIDecode(arg, out string) {
	var sis *SpliceInfoSection
	var err error
	if strings.HasPrefix(arg, "0x") {
		sis, err = DecodeHex(arg)
	} else {
		sis, err = DecodeBase64(arg)
	}
	var text string
	if out == "json" {
		b, _ := json.MarshalIndent(sis, "", "\t")
		text = string(b)
	} else if out == "xml" {
		b, _ := xml.MarshalIndent(sis, "", "\t")
		text = string(b)
	} else {
		text = sis.Table("", "\t")
	}
	fmt.Fprintf(os.Stdout, "%s\n", text)
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
	}
}

func specCLIEncode(input string) {
	var sis *SpliceInfoSection
	var err error
	text := strings.TrimSpace(input)
	if strings.HasPrefix(text, "<") {
		err = xml.Unmarshal([]byte(input), &sis)
	} else if strings.HasPrefix(text, "{") {
		err = json.Unmarshal([]byte(input), &sis)
	} else {
		err = errors.New("unrecognized or empty input")
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
		return
	}
	fmt.Fprintf(os.Stdout, "Base64: %s\nHex   : %s\n", sis.Base64(), sis.Hex())
}

func specCLIEncodeArgument(arg string) { specCLIEncode(arg) }

func specCLIEncodeInput() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
		return
	}
	specCLIEncode(string(b))
}
