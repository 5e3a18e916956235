// Code generated by tools/alias; stands in for github.com/aws/aws-sdk-go/aws/session.
package vsession

import real "github.com/aws/aws-sdk-go/aws/session"

type AssumeRoleTokenProviderNotSetError = real.AssumeRoleTokenProviderNotSetError
type CredentialRequiresARNError = real.CredentialRequiresARNError
type CredentialsProviderOptions = real.CredentialsProviderOptions

const DefaultSharedConfigProfile = real.DefaultSharedConfigProfile
const EnvProviderName = real.EnvProviderName
const ErrCodeLoadClientTLSCert = real.ErrCodeLoadClientTLSCert
const ErrCodeLoadCustomCABundle = real.ErrCodeLoadCustomCABundle
const ErrCodeSharedConfig = real.ErrCodeSharedConfig

var ErrSharedConfigECSContainerEnvVarEmpty = real.ErrSharedConfigECSContainerEnvVarEmpty
var ErrSharedConfigInvalidCredSource = real.ErrSharedConfigInvalidCredSource
var ErrSharedConfigSourceCollision = real.ErrSharedConfigSourceCollision

type Options = real.Options
type Session = real.Session
type SharedConfigAssumeRoleError = real.SharedConfigAssumeRoleError

const SharedConfigDisable = real.SharedConfigDisable
const SharedConfigEnable = real.SharedConfigEnable

type SharedConfigLoadError = real.SharedConfigLoadError
type SharedConfigProfileNotExistsError = real.SharedConfigProfileNotExistsError
type SharedConfigState = real.SharedConfigState

const SharedConfigStateFromEnv = real.SharedConfigStateFromEnv

var WebIdentityEmptyRoleARNErr = real.WebIdentityEmptyRoleARNErr
var WebIdentityEmptyTokenFilePathErr = real.WebIdentityEmptyTokenFilePathErr
