package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"time"
	"unsafe"
)

// openPTY gives both ends of a new terminal.
func openPTY() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// runOnTerminal runs a program whose standard input is a terminal and types once
// the program has asked.
func runOnTerminal(bin string, args []string, prompt, typed string, env []string, dir string, limit time.Duration) (Out, error) {
	m, s, err := openPTY()
	if err != nil {
		return Out{}, err
	}
	defer m.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = s
	var se bytes.Buffer
	pr, pw, err := os.Pipe()
	if err != nil {
		s.Close()
		return Out{}, err
	}
	c.Stdout, c.Stderr = pw, &se
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=single"}, env...)
	if err := c.Start(); err != nil {
		s.Close()
		pr.Close()
		pw.Close()
		return Out{}, err
	}
	pw.Close()
	s.Close()
	var so bytes.Buffer
	done := make(chan bool)
	go func() {
		b := make([]byte, 4096)
		sent := prompt == "" // nothing to wait for
		for {
			n, err := pr.Read(b)
			so.Write(b[:n])
			if !sent && bytes.Contains(so.Bytes(), []byte(prompt)) {
				sent = true
				// the program turns the echo off after it has asked
				time.Sleep(30 * time.Millisecond)
				m.Write([]byte(typed))
			}
			if err != nil {
				close(done)
				return
			}
		}
	}()
	<-done
	c.Wait()
	pr.Close()
	o := Out{Stdout: so.String(), Stderr: se.String()}
	if c.ProcessState != nil {
		o.Code = c.ProcessState.ExitCode()
		if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.Signal = ws.Signal().String()
		}
	}
	o.Hung = ctx.Err() != nil
	return o, nil
}
